pub open spec fn is_pow2(a: usize) -> bool { a != 0 && (a & sub(a, 1)) == 0 }
pub assume_specification [usize::is_power_of_two] (x: usize) -> (r: bool) returns is_pow2(x);
pub open spec fn align_spec(v: usize, a: usize) -> usize { add(v, sub(a, 1)) & !sub(a, 1) }
pub proof fn align_lemma(v: usize, a: usize)
  requires is_pow2(a), v + (a - 1) <= usize::MAX
  ensures align_spec(v, a) >= v, align_spec(v, a) - v < a, align_spec(v, a) & sub(a, 1) == 0
{
  assert( a != 0 && (a & sub(a, 1)) == 0 && add(v, sub(a, 1)) >= v ==> (add(v, sub(a, 1)) & !sub(a, 1)) >= v && sub(add(v, sub(a, 1)) & !sub(a, 1), v) < a &&  (add(v, sub(a, 1)) & !sub(a, 1)) & sub(a, 1) == 0) by (bit_vector);
}
pub proof fn align_exact(v: usize, a: usize) requires is_pow2(a), v & sub(a, 1) == 0, v + (a - 1) <= usize::MAX ensures align_spec(v, a) == v
{ assert(add(v, sub(a, 1)) & !sub(a, 1) == v) by (bit_vector) requires a != 0, a & sub(a, 1) == 0, v & sub(a, 1) == 0, add(v, sub(a, 1)) >= v; }
pub proof fn align_le(v: usize, w: usize, a: usize) requires is_pow2(a), w & sub(a, 1) == 0, v <= w, v + (a - 1) <= usize::MAX ensures align_spec(v, a) <= w
{ assert(add(v, sub(a, 1)) & !sub(a, 1) <= w) by (bit_vector) requires a != 0, a & sub(a, 1) == 0, w & sub(a, 1) == 0, v <= w, add(v, sub(a, 1)) >= v; }
