// A destination tree that remembers what is written to it.
use crate::prelude::*;
use crate::tree::*;
#[derive(Clone)]
pub enum Op {
    Dir(String),
    File(String, Vec<u8>, bool),
    Link(String, String),
}
#[derive(Default)]
pub struct Recorder {
    pub ops: Vec<Op>,
}
impl WriteTree for Recorder {
    fn mkdir(&mut self, path: &NicePathBuf) -> Result<()> {
        self.ops.push(Op::Dir(path.to_string()));
        Ok(())
    }
    fn write_file(&mut self, path: &NicePathBuf, data: &mut dyn Read, executable: bool) -> Result<()> {
        let mut v = vec![];
        data.read_to_end(&mut v)?;
        self.ops.push(Op::File(path.to_string(), v, executable));
        Ok(())
    }
    fn write_symlink(&mut self, s: &NiceSymlinkPaths) -> Result<()> {
        self.ops.push(Op::Link(s.source.to_string(), s.target.clone()));
        Ok(())
    }
}
impl Recorder {
    pub fn file(&self, name: &str) -> Option<(&[u8], bool)> {
        self.ops.iter().find_map(|o| match o {
            Op::File(n, v, x) if super::sym::same_str(n, name) => Some((&v[..], *x)),
            _ => None,
        })
    }
}
