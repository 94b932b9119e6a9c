== include tokstate.inc
== fn tk Tokenizer::advance
 requires old(self).wf0()
 ensures final(self).moved(old(self), if old(self).p() < old(self).s().len() { old(self).p() + 1 } else { old(self).p() })
== fn tk Tokenizer::current_pos
 requires self.wf0()
 ensures r == off(self.s(), self.p())
-- entry
 proof { assert(self.s().take(self.s().len() as int) =~= self.s()); }
== fn tk Tokenizer::mark_start
 requires old(self).wf0()
 ensures final(self).wf0(), final(self).p() == old(self).p(), final(self).input == old(self).input, final(self).token == old(self).token, final(self).string_buffer == old(self).string_buffer, range_of(final(self).s(), final(self).value_range, old(self).p(), old(self).p())
== fn tk Tokenizer::mark_end
 requires old(self).wf0()
 ensures final(self).wf0(), final(self).p() == old(self).p(), final(self).input == old(self).input, final(self).token == old(self).token, final(self).string_buffer == old(self).string_buffer, forall|i: int, j: int| range_of(old(self).s(), old(self).value_range, i, j) && i <= old(self).p() ==> range_of(final(self).s(), final(self).value_range, i, old(self).p())
== fn tk Tokenizer::skip_whitespace
 requires old(self).wf0()
 ensures final(self).moved(old(self), ws(old(self).s(), old(self).p()))
-- loop 0
 invariant self.moved(old(self), self.p()), ws(old(self).s(), old(self).p()) == ws(old(self).s(), self.p())
 ensures self.p() == ws(old(self).s(), self.p())
 decreases self.s().len() - self.p()
== fn tk Tokenizer::single_char_token
 requires old(self).wf(), old(self).p() < old(self).s().len()
 ensures r is Ok, final(self).wf(), final(self).input == old(self).input, final(self).p() == old(self).p() + 1, final(self).token == token
== fn tk Tokenizer::match_keyword
 requires old(self).wf()
 ensures final(self).wf(), final(self).input == old(self).input, r is Ok <==> word(old(self).s(), old(self).p(), string@), r is Ok ==> final(self).token == token && final(self).p() == old(self).p() + string@.len()
-- loop 0 it
 invariant it.seq() == string@, self.wf(), 0 <= old(self).p(), self.input == old(self).input, self.p() == old(self).p() + it.index@, self.s().subrange(old(self).p(), old(self).p() + it.index@) == string@.take(it.index@)
-- body 0
 proof { let a = old(self).p(); let k = it.index@; if a + k < self.s().len() { assert(self.s().subrange(a, a + k + 1) =~= self.s().subrange(a, a + k).push(self.s()[a + k])); assert(string@.take(k + 1) =~= string@.take(k).push(string@[k])); }
   assert(word(old(self).s(), a, string@) ==> a + k < self.s().len() && self.s()[a + k] == target) by { if word(old(self).s(), a, string@) { assert(self.s().subrange(a, a + string@.len())[k] == string@[k]); } } }
-- after 0
 proof { assert(string@.take(string@.len() as int) =~= string@); }
== fn tk Tokenizer::push_string_char
 requires old(self).wf()
 ensures final(self).wf(), final(self).input == old(self).input, final(self).token == old(self).token, final(self).value_range == old(self).value_range, final(self).string_buffer@ == old(self).string_buffer@.push(ch), final(self).p() == (if old(self).p() < old(self).s().len() { old(self).p() + 1 } else { old(self).p() })
== fn tk Tokenizer::string_control_char
 requires old(self).wf(), at(old(self).s(), old(self).p(), '\\')
 ensures final(self).wf(), final(self).input == old(self).input, final(self).value_range == old(self).value_range,
  match escape(old(self).s(), old(self).p()) { Some((c, e)) => r is Ok && final(self).string_buffer@ == old(self).string_buffer@.push(c) && final(self).p() == e, None => r is Err }
-- loop 0 it
 invariant self.wf(), self.input == old(self).input, self.value_range == old(self).value_range, self.string_buffer@ == old(self).string_buffer@, self.p() == old(self).p() + 2 + it.index@, hex(self.s(), old(self).p() + 2, it.index@ as nat) == Some(char_code as int), char_code < pow16(it.index@ as nat), at(old(self).s(), old(self).p(), '\\'), old(self).wf(), at(old(self).s(), old(self).p() + 1, 'u'), 
-- body 0
 proof { reveal_with_fuel(pow16, 6); reveal_with_fuel(hex, 6); }
== fn tk Tokenizer::match_string
 requires old(self).wf(), at(old(self).s(), old(self).p(), '"')
 ensures final(self).wf(), final(self).input == old(self).input,
  match chars(old(self).s(), old(self).p() + 1) { Some((t, e)) => r is Ok && final(self).token == Token::String && final(self).string_buffer@ == t && final(self).p() == e, None => r is Err }
-- loop 0
 invariant self.wf(), self.input == old(self).input, old(self).p() < self.p(), range_of(self.s(), self.value_range, old(self).p(), old(self).p()),
   chars(self.s(), old(self).p() + 1) == (match chars(self.s(), self.p()) { None => None, Some((t, e)) => Some((self.string_buffer@ + t, e)) })
 ensures chars(self.s(), self.p()) is None
 decreases self.s().len() - self.p()
== fn tk Tokenizer::digits
 requires old(self).wf0()
 ensures final(self).moved(old(self), digits_end(old(self).s(), old(self).p())), digits_end(old(self).s(), old(self).p()) >= old(self).p()
-- loop 0
 invariant self.p() >= old(self).p(), self.moved(old(self), self.p()), digits_end(old(self).s(), old(self).p()) == digits_end(old(self).s(), self.p())
 ensures self.p() == digits_end(old(self).s(), self.p())
 decreases self.s().len() - self.p()
== text
pub proof fn digits_step(s: Text, k: int) ensures dig_at(s, k) ==> digits_end(s, k) == digits_end(s, k + 1) {}
== fn tk Tokenizer::match_number
 requires old(self).wf()
 ensures final(self).wf(), final(self).input == old(self).input,
  match number_end(old(self).s(), old(self).p()) { Some(e) => r is Ok && final(self).token == Token::Number && final(self).p() == e && range_of(final(self).s(), final(self).value_range, old(self).p(), e), None => r is Err }
-- entry
 hide(digits_end); hide(off); hide(encode_utf8);
 proof { digits_step(self.s(), if at(self.s(), self.p(), '-') { self.p() + 1 } else { self.p() }); }
-- exit
 proof { assert(has_resolved(self)); }
== fn tk Tokenizer::value
 requires self.wf()
 ensures self.token == Token::String ==> r@ == self.string_buffer@, self.token != Token::String ==> forall|i: int, j: int| #[trigger] range_of(self.s(), self.value_range, i, j) ==> r@ == self.s().subrange(i, j)
== fn tk Tokenizer::next
 requires old(self).wf()
 ensures final(self).wf(), final(self).input == old(self).input, ({ let k = ws(old(self).s(), old(self).p()); (r is Ok <==> tok(old(self).s(), k) is Some) && (r is Ok ==> final(self).shows(k)) })
-- entry
 proof { assert("null"@ =~= t_null()); assert("true"@ =~= t_true()); assert("false"@ =~= t_false()); }
== fn tk Tokenizer::new
 ensures r is Ok <==> tok(input@, ws(input@, 0)) is Some, match r { Ok(t) => t.wf() && t.input@ == input@ && t.shows(ws(input@, 0)), Err(_) => true }
-- entry
 proof { assert(input@.take(0) =~= Seq::<char>::empty()); reveal_with_fuel(encode_utf8, 2); assert(range_of(input@, 0..0, 0, 0)); }
