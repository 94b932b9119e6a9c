== text
// embedded SELECT: its columns, if it has a type, depend on the statement and the tables only (unit select)
#[verifier::external_body]
pub struct SelectStatement { m: u8 }
impl SelectStatement { #[verifier::external_body] pub fn infer_type(&self, context: &SetContext) -> (r: Result<RowType, Error>)
  ensures match r { Ok(t) => select_cols(*self, *context) == Some(cols(t.attributes@)), Err(_) => select_cols(*self, *context) is None } { panic!() } }
