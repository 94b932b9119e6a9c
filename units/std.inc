// contracts of standard-library functions that vstd does not have (trusted)
pub assume_specification [<String as PartialEq<str>>::eq] (a: &String, b: &str) -> (r: bool) ensures r == (a@ =~= b@);
pub assume_specification<T: Ord> [std::cmp::min::<T>] (a: T, b: T) -> (r: T)
  ensures <T as OrdSpec>::obeys_cmp_spec() ==> r == (if <T as OrdSpec>::cmp_spec(&a, &b) is Greater { b } else { a });
pub assume_specification<T: Ord> [std::cmp::max::<T>] (a: T, b: T) -> (r: T)
  ensures <T as OrdSpec>::obeys_cmp_spec() ==> r == (if <T as OrdSpec>::cmp_spec(&a, &b) is Greater { a } else { b });
pub broadcast axiom fn axiom_string_from<'a>(a: &'a str) ensures <String as FromSpec<&'a str>>::obeys_from_spec(), (#[trigger] <String as FromSpec<&'a str>>::from_spec(a))@ == a@;
pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<Box<T, A> as AsRef<T>>::as_ref] (b: &Box<T, A>) -> (r: &T) ensures r == &**b;
