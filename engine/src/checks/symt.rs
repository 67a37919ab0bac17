//! A transcript whose challenges are symbolic and which records everything absorbed.
use crate::symgroup::GA;
use halo2_proofs::transcript::{EncodedChallenge, Transcript, TranscriptRead, TranscriptWrite};
use pasta_curves::Fp;
use std::io;

#[derive(Clone, Copy, Debug)]
pub struct SymChallenge(pub Fp);
impl EncodedChallenge<GA> for SymChallenge {
    type Input = Fp;
    fn new(i: &Fp) -> Self {
        SymChallenge(*i)
    }
    fn get_scalar(&self) -> Fp {
        self.0
    }
}
#[derive(Clone, Copy, Debug)]
pub enum Item {
    P(GA),
    S(Fp),
}
#[derive(Clone, Copy, Debug)]
pub enum Ev {
    /// absorbed without being part of the proof
    Common(Item),
    /// absorbed and part of the proof
    Proof(Item),
    Challenge(usize),
}
#[derive(Clone, Debug)]
pub struct SymT {
    pub ch: Vec<Fp>,
    pub nch: usize,
    pub log: Vec<Ev>,
    pub input: Vec<Item>,
    pub pos: usize,
    /// fail every write once this many challenges were squeezed
    pub limit: usize,
}
fn err() -> io::Error {
    io::Error::new(io::ErrorKind::Other, "unexpected item")
}
impl SymT {
    pub fn new(ch: &[Fp]) -> Self {
        SymT { ch: ch.to_vec(), nch: 0, log: vec![], input: vec![], pos: 0, limit: usize::MAX }
    }
    pub fn reader(ch: &[Fp], input: &[Item]) -> Self {
        SymT { ch: ch.to_vec(), nch: 0, log: vec![], input: input.to_vec(), pos: 0, limit: usize::MAX }
    }
    pub fn proof(&self) -> Vec<Item> {
        self.log.iter().filter_map(|e| if let Ev::Proof(i) = e { Some(*i) } else { None }).collect()
    }
    pub fn challenges(&self) -> Vec<Fp> {
        self.ch[..self.nch].to_vec()
    }
}
impl Transcript<GA, SymChallenge> for SymT {
    fn squeeze_challenge(&mut self) -> SymChallenge {
        let c = *self.ch.get(self.nch).expect("more challenges than provided");
        self.log.push(Ev::Challenge(self.nch));
        self.nch += 1;
        SymChallenge(c)
    }
    fn common_point(&mut self, p: GA) -> io::Result<()> {
        self.log.push(Ev::Common(Item::P(p)));
        Ok(())
    }
    fn common_scalar(&mut self, s: Fp) -> io::Result<()> {
        self.log.push(Ev::Common(Item::S(s)));
        Ok(())
    }
}
impl TranscriptWrite<GA, SymChallenge> for SymT {
    fn write_point(&mut self, p: GA) -> io::Result<()> {
        if self.nch >= self.limit {
            return Err(err());
        }
        self.log.push(Ev::Proof(Item::P(p)));
        Ok(())
    }
    fn write_scalar(&mut self, s: Fp) -> io::Result<()> {
        if self.nch >= self.limit {
            return Err(err());
        }
        self.log.push(Ev::Proof(Item::S(s)));
        Ok(())
    }
}
impl TranscriptRead<GA, SymChallenge> for SymT {
    fn read_point(&mut self) -> io::Result<GA> {
        match self.input.get(self.pos) {
            Some(Item::P(p)) => {
                self.pos += 1;
                self.log.push(Ev::Proof(Item::P(*p)));
                Ok(*p)
            }
            _ => Err(err()),
        }
    }
    fn read_scalar(&mut self) -> io::Result<Fp> {
        match self.input.get(self.pos) {
            Some(Item::S(s)) => {
                self.pos += 1;
                self.log.push(Ev::Proof(Item::S(*s)));
                Ok(*s)
            }
            _ => Err(err()),
        }
    }
}
