== rewrite util
set_value<T: Copy>
=>
set_value<T: Raw>
== rewrite util
get_value<T: Copy>
=>
get_value<T: Raw>
== rewrite util
mem::size_of::<T>()
=>
vsize_of::<T>()
== rewrite util
unsafe { let $idp = buffer[offset..].as_mut_ptr() as *mut T; ptr::write_unaligned($idp, value) }
=>
vstore(buffer, offset, value)
== rewrite util
unsafe { let $idp = buffer[offset..].as_ptr() as *const T; ptr::read_unaligned($idp) }
=>
vload(buffer, offset)
