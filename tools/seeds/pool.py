import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mk
ST = "storage/mod.rs"
H = '''use cathlamet::storage::verif::{pool_session, Session};
fn fill(s: &mut Session, offset: u64, byte: u8) { let h = s.initialize(0, offset).expect("buffer"); for i in 0..16 { s.write(h, i, byte) } s.release(h).expect("release"); }
fn read(s: &mut Session, offset: u64) -> Vec<u8> { let h = s.read_only(0, offset).expect("buffer"); let b = s.content(h); s.release(h).expect("release"); b }
'''
mk("p26-reader-cleans", "P26", [(ST, "            (buffer.access.take().unwrap(), buffer.dirty)\n", "            (buffer.access.take().unwrap(), buffer.dirty && buffer.submitted)\n")],
  "a location that is written, released, read and released, and then as many other locations as the pool has buffers", "the buffer with the unsaved content is taken for another location", H + '''
fn main() { pool_session(16, 2, |s| { fill(s, 0, 7); assert_eq!(read(s, 0), vec![7; 16]); fill(s, 16, 8); assert_eq!(read(s, 0), vec![7; 16]); assert!(s.initialize(0, 32).is_none()); assert_eq!(read(s, 0), vec![7; 16]); }) }
''')
mk("p26-second-reader", "P26", [(ST, "                            access.num_handles = num_handles + 1;\n", "                            access.num_handles = std::cmp::max(num_handles, 1);\n")],
  "two handles to one location are open at once and one of them is released", "the buffer counts as idle although a handle is open", H + '''
fn main() { pool_session(16, 2, |s| { fill(s, 0, 7); let a = s.read_only(0, 0).unwrap(); let b = s.read_only(0, 0).unwrap(); s.release(a).unwrap(); let l = s.lists().unwrap(); assert!(l[1].contains(&(s.buffer(b) as u32)), "{:?}", l); s.release(b).unwrap(); }) }
''')
mk("p26-page-length", "P26", [(ST, "        unsafe { std::slice::from_raw_parts_mut(page_base as *mut u8, self.buffer_size) }\n", "        unsafe { std::slice::from_raw_parts_mut(page_base as *mut u8, self.memory.len() - self.buffer_size * buffer_index) }\n")],
  "two locations in one pool, the second initialized after the first was written", "initializing a buffer clears the buffers behind it", H + '''
fn main() { pool_session(16, 3, |s| { fill(s, 0, 7); fill(s, 16, 8); fill(s, 32, 9); for (k, b) in [(0, 7), (16, 8), (32, 9)] { assert_eq!(read(s, k), vec![b; 16]); } }) }
''')
mk("p26-write-release-clean", "P26", [(ST, "            let buffer = &mut internal.buffers[buffer_index];\n            buffer.dirty = true;\n", "            let buffer = &mut internal.buffers[buffer_index];\n            buffer.dirty = buffer.dirty || buffer.pinned;\n")],
  "a location written and released, then used again", "a buffer released after writing waits among the dirty buffers but counts as clean", H + '''
fn main() { pool_session(16, 2, |s| { fill(s, 0, 7); assert_eq!(read(s, 0), vec![7; 16]); fill(s, 16, 8); assert!(s.initialize(0, 32).is_none()); assert_eq!(read(s, 0), vec![7; 16]); let l = s.lists().unwrap(); assert_eq!((l[0].len(), l[1].len(), l[2].len()), (0, 0, 2)); }) }
''')
