pub open spec fn label(t: Type, i: int) -> Text { match t.kind { Kind::Enum(c) => c@[i].label@, Kind::Struct(f) => f@[i].label@, _ => Seq::empty() } }
