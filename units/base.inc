// Common prelude of every unit (text; nothing here comes from /repo)
pub fn vassert(b: bool) requires b {}
// variant "refuse": an assert! that fails ends the call, so whatever follows may rely on it
#[verifier::external_body]
pub fn vrefuse(b: bool) ensures b { if !b { panic!() } }
@refuse:#[verifier::external_body]
@refuse:pub fn vpanic<T>() -> (r: T) ensures false { panic!() }
@prove:#[verifier::external_body]
@prove:pub fn vpanic<T>() -> (r: T) requires false { panic!() }
@query:#[verifier::external_body]
@query:pub fn vpanic<T>() -> (r: T) requires false { panic!() }
/*VX_AUTO_CONSTS*/
