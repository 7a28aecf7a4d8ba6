//! Caller-supplied parties: term streams, term sinks, text sinks.
use crate::sim::{outside, party_event, SimPanic};
use rustnomial::{MutablePolynomial, TryAddError};
use std::fmt;
use std::panic::panic_any;

/// A stream of terms decided by the plan.
pub struct SimStream<N> {
    pub items: Vec<(N, usize)>,
    pub pos: usize,
    pub polls: u64,
    /// Number of the poll (1-based) that panics; 0 = none.
    pub panic_at: u64,
    /// Number of the poll that answers "end of stream" although items are left (the stream is not
    /// fused: later polls would deliver more); 0 = none.
    pub end_at: u64,
    pub ended: bool,
    /// Polls received after the end was announced.
    pub polls_after_end: u64,
    /// What the stream says about its length: 0 nothing, 1 the rest, 2 at least the rest, 3 a little more.
    pub hint: u8,
}

impl<N: Copy> SimStream<N> {
    pub fn new(items: Vec<(N, usize)>, panic_at: u64, end_at: u64, hint: u8) -> Self {
        SimStream {
            items,
            pos: 0,
            polls: 0,
            panic_at,
            end_at,
            ended: false,
            polls_after_end: 0,
            hint,
        }
    }
}

impl<N: Copy> Iterator for SimStream<N> {
    type Item = (N, usize);
    fn next(&mut self) -> Option<(N, usize)> {
        party_event();
        self.polls += 1;
        if self.ended {
            self.polls_after_end += 1;
        }
        if self.polls == self.panic_at {
            outside(|| panic_any(SimPanic::Stream));
        }
        if self.polls == self.end_at {
            self.ended = true;
            return None;
        }
        match self.items.get(self.pos) {
            Some(&e) => {
                self.pos += 1;
                Some(e)
            }
            None => {
                self.ended = true;
                None
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.items.len() - self.pos;
        match self.hint % 4 {
            0 => (0, None),
            1 => (left, Some(left)),
            2 => (left, None),
            _ => (left + 2, None),
        }
    }
}

/// A sink that records what it is offered.
pub struct RecSink<N> {
    /// (coefficient, degree, subtracted)
    pub log: Vec<(N, usize, bool)>,
    pub calls: u64,
    pub reject_at: u64,
    pub reject_with: TryAddError,
    /// Rejects every call from reject_at on instead of only that one.
    pub sticky: bool,
    pub panic_at: u64,
    pub rejected: bool,
    pub calls_after_rejection: u64,
}

impl<N> RecSink<N> {
    fn call(&mut self, c: N, d: usize, sub: bool) -> Result<(), TryAddError> {
        party_event();
        self.calls += 1;
        if self.rejected {
            self.calls_after_rejection += 1;
        }
        if self.calls == self.panic_at {
            outside(|| panic_any(SimPanic::Sink));
        }
        if self.reject_at != 0
            && (self.calls == self.reject_at || (self.sticky && self.calls > self.reject_at))
        {
            self.rejected = true;
            return Err(self.reject_with);
        }
        outside(|| self.log.push((c, d, sub)));
        Ok(())
    }
}

impl<N> MutablePolynomial<N> for RecSink<N> {
    fn try_add_term(&mut self, c: N, d: usize) -> Result<(), TryAddError> {
        self.call(c, d, false)
    }
    fn try_sub_term(&mut self, c: N, d: usize) -> Result<(), TryAddError> {
        self.call(c, d, true)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SinkFault {
    None,
    /// The k-th call fails, nothing of it accepted.
    Call(u64),
    /// The call that would pass byte k accepts up to byte k and fails (full disk).
    Byte(u64),
    /// The k-th call panics.
    Panic(u64),
}

/// A text sink decided by the plan.
pub struct TextSink {
    pub got: String,
    pub calls: u64,
    pub fault: SinkFault,
    /// The error condition goes away after one failure.
    pub transient: bool,
    pub failed: bool,
    pub calls_after_failure: u64,
}

impl TextSink {
    pub fn new(fault: SinkFault, transient: bool) -> TextSink {
        TextSink {
            got: String::with_capacity(4096),
            calls: 0,
            fault,
            transient,
            failed: false,
            calls_after_failure: 0,
        }
    }
}

impl fmt::Write for TextSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        party_event();
        outside(|| {
            if self.failed && !s.is_empty() {
                self.calls_after_failure += 1;
            }
            if s.is_empty() {
                return Ok(());
            }
            self.calls += 1;
            if self.failed && !self.transient {
                return Err(fmt::Error);
            }
            if !self.failed {
                match self.fault {
                    SinkFault::Call(k) if self.calls == k => {
                        self.failed = true;
                        return Err(fmt::Error);
                    }
                    SinkFault::Panic(k) if self.calls == k => {
                        self.failed = true;
                        panic_any(SimPanic::Sink);
                    }
                    SinkFault::Byte(k) => {
                        let room = (k as usize).saturating_sub(self.got.len());
                        if s.len() > room {
                            self.failed = true;
                            let mut n = room;
                            while !s.is_char_boundary(n) {
                                n -= 1;
                            }
                            self.got.push_str(&s[..n]);
                            return Err(fmt::Error);
                        }
                    }
                    _ => {}
                }
            }
            self.got.push_str(s);
            Ok(())
        })
    }
}
