//! Runs the real crate (the replay program) on concrete cases.
use crate::pos::Raw;
use std::io::Write;
use std::process::{Command, Stdio};

pub struct Native {
    pub bin: String,
}
impl Native {
    /// one output line per input line; a line lost to a crash of the process reads "CRASH"
    pub fn run(&self, lines: &[String]) -> Result<Vec<String>, String> {
        let mut out = vec![];
        let mut at = 0;
        while at < lines.len() {
            let mut c = Command::new(&self.bin).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("{}: {e}", self.bin))?;
            let mut i = c.stdin.take().unwrap();
            let text = lines[at..].join("\n") + "\n";
            let h = std::thread::spawn(move || {
                let _ = i.write_all(text.as_bytes());
            });
            let o = c.wait_with_output().map_err(|e| e.to_string())?;
            let _ = h.join();
            let got: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect();
            at += got.len();
            out.extend(got);
            if at < lines.len() {
                out.push("CRASH".into());
                at += 1;
            }
        }
        Ok(out)
    }
    pub fn one(&self, line: &str) -> Result<String, String> {
        Ok(self.run(&[line.to_string()])?.pop().unwrap_or_default())
    }
    pub fn legal(&self, r: &[Raw]) -> Result<Vec<Result<Vec<u32>, String>>, String> {
        let l: Vec<String> = r.iter().map(|x| format!("{} L", x.hex())).collect();
        Ok(self.run(&l)?.into_iter().map(|s| parse_legal(&s)).collect())
    }
}
pub fn parse_legal(s: &str) -> Result<Vec<u32>, String> {
    match s.strip_prefix('L') {
        Some("") => Ok(vec![]),
        Some(t) => t.split(',').map(|x| u32::from_str_radix(x, 16).map_err(|e| format!("{s}: {e}"))).collect(),
        None => Err(s.to_string()),
    }
}
