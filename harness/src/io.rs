//! Readers and writers that split, interrupt or fail transfers under the control of a script.

use std::io::{Error, ErrorKind, Read, Result, Write};

/// What the next calls do: transfer at most so many bytes, be interrupted, or fail.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Step {
	Most(usize),
	Interrupt,
}

/// How the operation ends at `fail_at`: an error, or a transfer of nothing.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fail {
	Never,
	ErrorAt(usize),
	ZeroAt(usize),
}

/// After the script is used up, every call transfers all it can (up to a failure point).
pub struct Script<'a> {
	pub steps: &'a [Step],
	pub cycle: bool,
	pub fail: Fail,
	pub pos: usize,
	pub calls: usize,
}

impl<'a> Script<'a> {
	pub fn new(steps: &'a [Step], cycle: bool, fail: Fail) -> Self {
		Script {
			steps,
			cycle,
			fail,
			pos: 0,
			calls: 0,
		}
	}
	fn next(&mut self, want: usize) -> Result<usize> {
		let s = if self.cycle && !self.steps.is_empty() {
			Some(self.steps[self.calls % self.steps.len()])
		} else {
			self.steps.get(self.calls).copied()
		};
		self.calls += 1;
		if want == 0 {
			return Ok(0);
		}
		let mut n = match s {
			Some(Step::Interrupt) => return Err(Error::new(ErrorKind::Interrupted, "interrupted")),
			Some(Step::Most(n)) => want.min(n.max(1)),
			None => want,
		};
		match self.fail {
			Fail::Never => {}
			Fail::ErrorAt(f) => {
				if self.pos >= f {
					return Err(Error::new(ErrorKind::Other, "device failed"));
				}
				n = n.min(f - self.pos)
			}
			Fail::ZeroAt(f) => n = n.min(f.saturating_sub(self.pos)),
		}
		self.pos += n;
		Ok(n)
	}
}

pub struct ScriptWriter<'a> {
	pub s: Script<'a>,
	pub out: Vec<u8>,
}
impl Write for ScriptWriter<'_> {
	fn write(&mut self, b: &[u8]) -> Result<usize> {
		let n = self.s.next(b.len())?;
		self.out.extend_from_slice(&b[..n]);
		Ok(n)
	}
	fn flush(&mut self) -> Result<()> {
		Ok(())
	}
}

pub struct ScriptReader<'a> {
	pub s: Script<'a>,
	pub data: &'a [u8],
}
impl Read for ScriptReader<'_> {
	fn read(&mut self, b: &mut [u8]) -> Result<usize> {
		let left = self.data.len() - self.s.pos;
		let at = self.s.pos;
		let n = self.s.next(b.len().min(left))?;
		b[..n].copy_from_slice(&self.data[at..at + n]);
		Ok(n)
	}
}

/// Bytes of memory that can still be used here, 0 when unknown.
pub fn memory_left() -> u64 {
	let read = |p: &str| std::fs::read_to_string(p).unwrap_or_default();
	let info = read("/proc/meminfo");
	let kb = info.lines().find_map(|l| l.strip_prefix("MemAvailable:")?.trim().split(' ').next()?.parse::<u64>().ok()).unwrap_or(0);
	let mut left = kb << 10;
	for (max, used) in [("memory.max", "memory.current"), ("memory/memory.limit_in_bytes", "memory/memory.usage_in_bytes")] {
		let num = |f: &str| read(&format!("/sys/fs/cgroup/{f}")).trim().parse::<u64>().ok();
		if let (Some(m), Some(u)) = (num(max), num(used)) {
			left = left.min(m.saturating_sub(u))
		}
	}
	left
}
