== rewrite sc
types::DataType
=>
DataType
== rewrite sc
symbols::Name
=>
Name
== rewrite sc
BTreeMap<Name, $$x>
=>
NameMap<$$x>
== rewrite sc
BTreeMap::new()
=>
NameMap::new()
== rewrite sc
Error::from($$x)
=>
verr()
== rewrite sc
.ok_or_else(|| { verr() })
=>
.ok_or(verr())
== rewrite sc
.ok_or_else(|| verr())
=>
.ok_or(verr())
== rewrite sc
Name::from($litx)
=>
vname($litx)
