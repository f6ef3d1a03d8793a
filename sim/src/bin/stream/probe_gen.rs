// @generated by gen/gen_zoo.py. Do not edit.
use ssz_derive::{Decode, Encode};
use ssz_sim::probe::*;

pub fn probe_containers() -> Vec<ProbeContainer> {
    let mut v: Vec<ProbeContainer> = vec![];
    v.push(pc::<P0>("P0", &[13]));
    v.push(pc::<P1>("P1", &[0]));
    v.push(pc::<P2>("P2", &[0]));
    v.push(pc::<P3>("P3", &[0]));
    v.push(pc::<P4>("P4", &[1]));
    v.push(pc::<P5>("P5", &[5]));
    v.push(pc::<P6>("P6", &[1]));
    v.push(pc::<P7>("P7", &[0]));
    v.push(pc::<P8>("P8", &[8, 2]));
    v.push(pc::<P9>("P9", &[2, 5]));
    v.push(pc::<P10>("P10", &[0, 4]));
    v.push(pc::<P11>("P11", &[0, 0]));
    v.push(pc::<P12>("P12", &[3, 5]));
    v.push(pc::<P13>("P13", &[32, 1]));
    v.push(pc::<P14>("P14", &[0, 0]));
    v.push(pc::<P15>("P15", &[0, 0]));
    v.push(pc::<P16>("P16", &[8, 4]));
    v.push(pc::<P17>("P17", &[13, 0]));
    v.push(pc::<P18>("P18", &[0, 0]));
    v.push(pc::<P19>("P19", &[0, 0]));
    v.push(pc::<P20>("P20", &[2, 4, 1]));
    v.push(pc::<P21>("P21", &[0, 3, 4]));
    v.push(pc::<P22>("P22", &[0, 1, 0]));
    v.push(pc::<P23>("P23", &[0, 0, 0]));
    v.push(pc::<P24>("P24", &[32, 8, 5]));
    v.push(pc::<P25>("P25", &[3, 0, 13]));
    v.push(pc::<P26>("P26", &[0, 0, 2]));
    v.push(pc::<P27>("P27", &[0, 0, 0]));
    v.push(pc::<P28>("P28", &[2, 1, 32]));
    v.push(pc::<P29>("P29", &[13, 32, 32]));
    v.push(pc::<P30>("P30", &[5, 8, 0]));
    v.push(pc::<P31>("P31", &[0, 0, 0]));
    v.push(pc::<P32>("P32", &[32, 4, 32, 2]));
    v.push(pc::<P33>("P33", &[5, 1, 13, 0]));
    v.push(pc::<P34>("P34", &[0, 8, 0, 13]));
    v.push(pc::<P35>("P35", &[0, 0, 0, 0]));
    v.push(pc::<P36>("P36", &[8, 8, 3, 13]));
    v.push(pc::<P37>("P37", &[0, 2, 2, 32]));
    v.push(pc::<P38>("P38", &[13, 8, 13, 0]));
    v.push(pc::<P39>("P39", &[0, 0, 0, 0]));
    v.push(pc::<P40>("P40", &[3, 1, 3, 13, 2]));
    v.push(pc::<P41>("P41", &[4, 5, 0, 4, 13]));
    v.push(pc::<P42>("P42", &[13, 0, 0, 0, 3]));
    v.push(pc::<P43>("P43", &[0, 0, 0, 0, 0]));
    v.push(pc::<P44>("P44", &[13, 2, 32, 8, 1, 4]));
    v.push(pc::<P45>("P45", &[1, 0, 0, 32, 13, 1]));
    v.push(pc::<P46>("P46", &[0, 0, 0, 0, 0, 0]));
    v.push(pc::<P47>("P47", &[0, 0, 0, 0, 0, 0]));
    v.push(pc::<P48>("P48", &[13, 0, 3, 8, 0, 5, 0]));
    v.push(pc::<P49>("P49", &[0, 0, 0, 1, 32, 0, 5]));
    v.push(pc::<P50>("P50", &[0, 0, 0, 0, 0, 0, 0]));
    v.push(pc::<P51>("P51", &[32, 32, 0, 0, 0, 13, 0, 5]));
    v.push(pc::<P52>("P52", &[0, 32, 0, 5, 0, 0, 0, 0]));
    v.push(pc::<P53>("P53", &[0, 0, 0, 0, 0, 0, 0, 0]));
    v.push(pc::<P54>("P54", &[13, 5, 0, 4, 32, 0, 32, 2, 0]));
    v.push(pc::<P55>("P55", &[0, 0, 0, 4, 0, 0, 0, 0, 2]));
    v.push(pc::<P56>("P56", &[0, 0, 0, 0, 0, 0, 0, 0, 0]));
    v.push(pc::<P57>("P57", &[1, 32, 0, 2, 0, 4, 0, 0, 0, 1]));
    v.push(pc::<P58>("P58", &[13, 0, 0, 0, 0, 0, 32, 3, 0, 0]));
    v.push(pc::<P59>("P59", &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0]));
    v.push(pc::<P60>("P60", &[3, 2, 1, 13, 0, 8, 0, 13, 0, 2, 8, 8]));
    v.push(pc::<P61>("P61", &[0, 0, 3, 32, 0, 0, 0, 1, 0, 0, 0, 0]));
    v.push(pc::<P62>("P62", &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]));
    v.push(pc::<P63>("P63", &[13, 0, 3, 0, 13, 5, 8, 1, 0, 2, 0, 1, 4, 0, 1, 0, 0]));
    v.push(pc::<P64>("P64", &[32, 32, 0, 0, 0, 4, 0, 0, 0, 32, 0, 0, 0, 0, 0, 3, 0]));
    v.push(pc::<P65>("P65", &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]));
    v.push(pc::<(PF<13>, PF<5>,)>("(PF<13>, PF<5>,)", &[13, 5]));
    v.push(pc::<(PV, PF<13>,)>("(PV, PF<13>,)", &[0, 13]));
    v.push(pc::<(PV, PV,)>("(PV, PV,)", &[0, 0]));
    v.push(pc::<(PF<3>, PF<2>, PF<8>,)>("(PF<3>, PF<2>, PF<8>,)", &[3, 2, 8]));
    v.push(pc::<(PF<3>, PV, PF<1>,)>("(PF<3>, PV, PF<1>,)", &[3, 0, 1]));
    v.push(pc::<(PV, PV, PV,)>("(PV, PV, PV,)", &[0, 0, 0]));
    v.push(pc::<(PF<3>, PF<1>, PF<4>, PF<2>,)>("(PF<3>, PF<1>, PF<4>, PF<2>,)", &[3, 1, 4, 2]));
    v.push(pc::<(PV, PV, PF<1>, PV,)>("(PV, PV, PF<1>, PV,)", &[0, 0, 1, 0]));
    v.push(pc::<(PV, PV, PV, PV,)>("(PV, PV, PV, PV,)", &[0, 0, 0, 0]));
    v.push(pc::<(PF<32>, PF<3>, PF<5>, PF<2>, PF<13>,)>("(PF<32>, PF<3>, PF<5>, PF<2>, PF<13>,)", &[32, 3, 5, 2, 13]));
    v.push(pc::<(PV, PV, PV, PF<3>, PF<13>,)>("(PV, PV, PV, PF<3>, PF<13>,)", &[0, 0, 0, 3, 13]));
    v.push(pc::<(PV, PV, PV, PV, PV,)>("(PV, PV, PV, PV, PV,)", &[0, 0, 0, 0, 0]));
    v.push(pc::<(PF<3>, PF<3>, PF<13>, PF<1>, PF<13>, PF<8>,)>("(PF<3>, PF<3>, PF<13>, PF<1>, PF<13>, PF<8>,)", &[3, 3, 13, 1, 13, 8]));
    v.push(pc::<(PF<3>, PF<8>, PF<3>, PV, PF<1>, PV,)>("(PF<3>, PF<8>, PF<3>, PV, PF<1>, PV,)", &[3, 8, 3, 0, 1, 0]));
    v.push(pc::<(PV, PV, PV, PV, PV, PV,)>("(PV, PV, PV, PV, PV, PV,)", &[0, 0, 0, 0, 0, 0]));
    v.push(pc::<(PF<5>, PF<3>, PF<2>, PF<4>, PF<5>, PF<32>, PF<5>,)>("(PF<5>, PF<3>, PF<2>, PF<4>, PF<5>, PF<32>, PF<5>,)", &[5, 3, 2, 4, 5, 32, 5]));
    v.push(pc::<(PV, PV, PF<8>, PV, PF<5>, PV, PV,)>("(PV, PV, PF<8>, PV, PF<5>, PV, PV,)", &[0, 0, 8, 0, 5, 0, 0]));
    v.push(pc::<(PV, PV, PV, PV, PV, PV, PV,)>("(PV, PV, PV, PV, PV, PV, PV,)", &[0, 0, 0, 0, 0, 0, 0]));
    v.push(pc::<(PF<8>, PF<13>, PF<8>, PF<3>, PF<1>, PF<2>, PF<5>, PF<4>,)>("(PF<8>, PF<13>, PF<8>, PF<3>, PF<1>, PF<2>, PF<5>, PF<4>,)", &[8, 13, 8, 3, 1, 2, 5, 4]));
    v.push(pc::<(PF<5>, PF<1>, PV, PV, PV, PV, PF<3>, PV,)>("(PF<5>, PF<1>, PV, PV, PV, PV, PF<3>, PV,)", &[5, 1, 0, 0, 0, 0, 3, 0]));
    v.push(pc::<(PV, PV, PV, PV, PV, PV, PV, PV,)>("(PV, PV, PV, PV, PV, PV, PV, PV,)", &[0, 0, 0, 0, 0, 0, 0, 0]));
    v.push(pc::<(PF<13>, PF<5>, PF<3>, PF<3>, PF<32>, PF<8>, PF<3>, PF<13>, PF<3>,)>("(PF<13>, PF<5>, PF<3>, PF<3>, PF<32>, PF<8>, PF<3>, PF<13>, PF<3>,)", &[13, 5, 3, 3, 32, 8, 3, 13, 3]));
    v.push(pc::<(PF<32>, PV, PF<32>, PV, PF<5>, PV, PV, PF<3>, PV,)>("(PF<32>, PV, PF<32>, PV, PF<5>, PV, PV, PF<3>, PV,)", &[32, 0, 32, 0, 5, 0, 0, 3, 0]));
    v.push(pc::<(PV, PV, PV, PV, PV, PV, PV, PV, PV,)>("(PV, PV, PV, PV, PV, PV, PV, PV, PV,)", &[0, 0, 0, 0, 0, 0, 0, 0, 0]));
    v.push(pc::<(PF<32>, PF<2>, PF<1>, PF<32>, PF<2>, PF<13>, PF<32>, PF<5>, PF<1>, PF<32>,)>("(PF<32>, PF<2>, PF<1>, PF<32>, PF<2>, PF<13>, PF<32>, PF<5>, PF<1>, PF<32>,)", &[32, 2, 1, 32, 2, 13, 32, 5, 1, 32]));
    v.push(pc::<(PV, PF<1>, PF<1>, PV, PF<13>, PV, PV, PV, PV, PV,)>("(PV, PF<1>, PF<1>, PV, PF<13>, PV, PV, PV, PV, PV,)", &[0, 1, 1, 0, 13, 0, 0, 0, 0, 0]));
    v.push(pc::<(PV, PV, PV, PV, PV, PV, PV, PV, PV, PV,)>("(PV, PV, PV, PV, PV, PV, PV, PV, PV, PV,)", &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0]));
    v.push(pc::<(PF<1>, PF<13>, PF<2>, PF<32>, PF<3>, PF<3>, PF<32>, PF<1>, PF<2>, PF<4>, PF<32>,)>("(PF<1>, PF<13>, PF<2>, PF<32>, PF<3>, PF<3>, PF<32>, PF<1>, PF<2>, PF<4>, PF<32>,)", &[1, 13, 2, 32, 3, 3, 32, 1, 2, 4, 32]));
    v.push(pc::<(PF<5>, PV, PF<3>, PV, PF<1>, PF<3>, PF<2>, PV, PF<13>, PF<32>, PF<13>,)>("(PF<5>, PV, PF<3>, PV, PF<1>, PF<3>, PF<2>, PV, PF<13>, PF<32>, PF<13>,)", &[5, 0, 3, 0, 1, 3, 2, 0, 13, 32, 13]));
    v.push(pc::<(PV, PV, PV, PV, PV, PV, PV, PV, PV, PV, PV,)>("(PV, PV, PV, PV, PV, PV, PV, PV, PV, PV, PV,)", &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]));
    v.push(pc::<(PF<3>, PF<4>, PF<1>, PF<5>, PF<8>, PF<2>, PF<2>, PF<1>, PF<5>, PF<1>, PF<13>, PF<8>,)>("(PF<3>, PF<4>, PF<1>, PF<5>, PF<8>, PF<2>, PF<2>, PF<1>, PF<5>, PF<1>, PF<13>, PF<8>,)", &[3, 4, 1, 5, 8, 2, 2, 1, 5, 1, 13, 8]));
    v.push(pc::<(PF<32>, PV, PF<4>, PV, PF<5>, PF<13>, PF<2>, PF<4>, PV, PF<2>, PF<3>, PV,)>("(PF<32>, PV, PF<4>, PV, PF<5>, PF<13>, PF<2>, PF<4>, PV, PF<2>, PF<3>, PV,)", &[32, 0, 4, 0, 5, 13, 2, 4, 0, 2, 3, 0]));
    v.push(pc::<(PV, PV, PV, PV, PV, PV, PV, PV, PV, PV, PV, PV,)>("(PV, PV, PV, PV, PV, PV, PV, PV, PV, PV, PV, PV,)", &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]));
    v
}

#[allow(dead_code)]
mod pm0 {
    pub mod encode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { false }
        pub fn ssz_fixed_len() -> usize { 4 }
        pub fn ssz_bytes_len(c: &Cap) -> usize { c.0.len() }
        pub fn ssz_append(c: &Cap, buf: &mut Vec<u8>) { buf.extend_from_slice(&c.0) }
    }
    pub mod decode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { false }
        pub fn ssz_fixed_len() -> usize { 4 }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<Cap, ssz::DecodeError> { Ok(Cap::of(b)) }
    }
}
#[allow(dead_code)]
mod pm1 {
    pub mod encode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 1 }
        pub fn ssz_bytes_len(c: &Cap) -> usize { c.0.len() }
        pub fn ssz_append(c: &Cap, buf: &mut Vec<u8>) { buf.extend_from_slice(&c.0) }
    }
    pub mod decode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 1 }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<Cap, ssz::DecodeError> { Ok(Cap::of(b)) }
    }
}
#[allow(dead_code)]
mod pm2 {
    pub mod encode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 2 }
        pub fn ssz_bytes_len(c: &Cap) -> usize { c.0.len() }
        pub fn ssz_append(c: &Cap, buf: &mut Vec<u8>) { buf.extend_from_slice(&c.0) }
    }
    pub mod decode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 2 }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<Cap, ssz::DecodeError> { Ok(Cap::of(b)) }
    }
}
#[allow(dead_code)]
mod pm3 {
    pub mod encode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 3 }
        pub fn ssz_bytes_len(c: &Cap) -> usize { c.0.len() }
        pub fn ssz_append(c: &Cap, buf: &mut Vec<u8>) { buf.extend_from_slice(&c.0) }
    }
    pub mod decode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 3 }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<Cap, ssz::DecodeError> { Ok(Cap::of(b)) }
    }
}
#[allow(dead_code)]
mod pm4 {
    pub mod encode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 4 }
        pub fn ssz_bytes_len(c: &Cap) -> usize { c.0.len() }
        pub fn ssz_append(c: &Cap, buf: &mut Vec<u8>) { buf.extend_from_slice(&c.0) }
    }
    pub mod decode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 4 }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<Cap, ssz::DecodeError> { Ok(Cap::of(b)) }
    }
}
#[allow(dead_code)]
mod pm5 {
    pub mod encode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 5 }
        pub fn ssz_bytes_len(c: &Cap) -> usize { c.0.len() }
        pub fn ssz_append(c: &Cap, buf: &mut Vec<u8>) { buf.extend_from_slice(&c.0) }
    }
    pub mod decode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 5 }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<Cap, ssz::DecodeError> { Ok(Cap::of(b)) }
    }
}
#[allow(dead_code)]
mod pm8 {
    pub mod encode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 8 }
        pub fn ssz_bytes_len(c: &Cap) -> usize { c.0.len() }
        pub fn ssz_append(c: &Cap, buf: &mut Vec<u8>) { buf.extend_from_slice(&c.0) }
    }
    pub mod decode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 8 }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<Cap, ssz::DecodeError> { Ok(Cap::of(b)) }
    }
}
#[allow(dead_code)]
mod pm13 {
    pub mod encode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 13 }
        pub fn ssz_bytes_len(c: &Cap) -> usize { c.0.len() }
        pub fn ssz_append(c: &Cap, buf: &mut Vec<u8>) { buf.extend_from_slice(&c.0) }
    }
    pub mod decode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 13 }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<Cap, ssz::DecodeError> { Ok(Cap::of(b)) }
    }
}
#[allow(dead_code)]
mod pm32 {
    pub mod encode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 32 }
        pub fn ssz_bytes_len(c: &Cap) -> usize { c.0.len() }
        pub fn ssz_append(c: &Cap, buf: &mut Vec<u8>) { buf.extend_from_slice(&c.0) }
    }
    pub mod decode {
        use ssz_sim::probe::Cap;
        pub fn is_ssz_fixed_len() -> bool { true }
        pub fn ssz_fixed_len() -> usize { 32 }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<Cap, ssz::DecodeError> { Ok(Cap::of(b)) }
    }
}
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P0 {
    pub f0: PF<13>,
}
impl ProbeFields for P0 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P1 {
    pub f0: PV,
}
impl ProbeFields for P1 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P2 {
    #[ssz(skip_serializing, skip_deserializing)]
    pub s0: u32,
    pub f0: PV,
}
impl ProbeFields for P2 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P3 {
    #[ssz(with = "pm0")]
    pub f0: Cap,
}
impl ProbeFields for P3 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P4 {
    pub f0: PF<1>,
}
impl ProbeFields for P4 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P5 {
    pub f0: PF<5>,
}
impl ProbeFields for P5 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P6 {
    pub f0: PF<1>,
}
impl ProbeFields for P6 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P7 {
    pub f0: PV,
}
impl ProbeFields for P7 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P8 {
    pub f0: PF<8>,
    pub f1: PF<2>,
}
impl ProbeFields for P8 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P9 {
    pub f0: PF<2>,
    pub f1: PF<5>,
}
impl ProbeFields for P9 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P10 {
    pub f0: PV,
    pub f1: PF<4>,
}
impl ProbeFields for P10 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P11 {
    #[ssz(with = "pm0")]
    pub f0: Cap,
    pub f1: PV,
}
impl ProbeFields for P11 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P12 {
    #[ssz(with = "pm3")]
    pub f0: Cap,
    pub f1: PF<5>,
}
impl ProbeFields for P12 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P13 {
    pub f0: PF<32>,
    pub f1: PF<1>,
}
impl ProbeFields for P13 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P14 {
    pub f0: PV,
    pub f1: PV,
}
impl ProbeFields for P14 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P15 {
    pub f0: PV,
    pub f1: PV,
}
impl ProbeFields for P15 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P16 {
    pub f0: PF<8>,
    pub f1: PF<4>,
}
impl ProbeFields for P16 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P17 {
    pub f0: PF<13>,
    pub f1: PV,
}
impl ProbeFields for P17 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P18 {
    pub f0: PV,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s1: u32,
    pub f1: PV,
}
impl ProbeFields for P18 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P19 {
    pub f0: PV,
    pub f1: PV,
}
impl ProbeFields for P19 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P20 {
    #[ssz(with = "pm2")]
    pub f0: Cap,
    pub f1: PF<4>,
    pub f2: PF<1>,
}
impl ProbeFields for P20 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P21 {
    #[ssz(skip_serializing, skip_deserializing)]
    pub s0: u32,
    pub f0: PV,
    pub f1: PF<3>,
    pub f2: PF<4>,
}
impl ProbeFields for P21 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P22 {
    #[ssz(skip_serializing, skip_deserializing)]
    pub s0: u32,
    #[ssz(with = "pm0")]
    pub f0: Cap,
    pub f1: PF<1>,
    pub f2: PV,
}
impl ProbeFields for P22 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P23 {
    #[ssz(with = "pm0")]
    pub f0: Cap,
    pub f1: PV,
    pub f2: PV,
}
impl ProbeFields for P23 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P24 {
    pub f0: PF<32>,
    pub f1: PF<8>,
    pub f2: PF<5>,
}
impl ProbeFields for P24 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P25 {
    pub f0: PF<3>,
    pub f1: PV,
    pub f2: PF<13>,
}
impl ProbeFields for P25 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P26 {
    #[ssz(with = "pm0")]
    pub f0: Cap,
    pub f1: PV,
    pub f2: PF<2>,
}
impl ProbeFields for P26 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P27 {
    pub f0: PV,
    pub f1: PV,
    pub f2: PV,
}
impl ProbeFields for P27 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P28 {
    pub f0: PF<2>,
    pub f1: PF<1>,
    #[ssz(with = "pm32")]
    pub f2: Cap,
}
impl ProbeFields for P28 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P29 {
    pub f0: PF<13>,
    pub f1: PF<32>,
    pub f2: PF<32>,
}
impl ProbeFields for P29 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P30 {
    pub f0: PF<5>,
    pub f1: PF<8>,
    pub f2: PV,
}
impl ProbeFields for P30 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P31 {
    #[ssz(with = "pm0")]
    pub f0: Cap,
    #[ssz(with = "pm0")]
    pub f1: Cap,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s2: u32,
    #[ssz(with = "pm0")]
    pub f2: Cap,
}
impl ProbeFields for P31 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P32 {
    pub f0: PF<32>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s1: u32,
    pub f1: PF<4>,
    pub f2: PF<32>,
    pub f3: PF<2>,
}
impl ProbeFields for P32 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P33 {
    pub f0: PF<5>,
    pub f1: PF<1>,
    #[ssz(with = "pm13")]
    pub f2: Cap,
    pub f3: PV,
}
impl ProbeFields for P33 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P34 {
    pub f0: PV,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s1: u32,
    pub f1: PF<8>,
    pub f2: PV,
    pub f3: PF<13>,
}
impl ProbeFields for P34 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P35 {
    pub f0: PV,
    pub f1: PV,
    #[ssz(with = "pm0")]
    pub f2: Cap,
    pub f3: PV,
}
impl ProbeFields for P35 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P36 {
    pub f0: PF<8>,
    pub f1: PF<8>,
    #[ssz(with = "pm3")]
    pub f2: Cap,
    pub f3: PF<13>,
}
impl ProbeFields for P36 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P37 {
    pub f0: PV,
    #[ssz(with = "pm2")]
    pub f1: Cap,
    pub f2: PF<2>,
    pub f3: PF<32>,
}
impl ProbeFields for P37 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P38 {
    pub f0: PF<13>,
    pub f1: PF<8>,
    pub f2: PF<13>,
    pub f3: PV,
}
impl ProbeFields for P38 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P39 {
    #[ssz(skip_serializing, skip_deserializing)]
    pub s0: u32,
    pub f0: PV,
    pub f1: PV,
    pub f2: PV,
    pub f3: PV,
}
impl ProbeFields for P39 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P40 {
    pub f0: PF<3>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s1: u32,
    #[ssz(with = "pm1")]
    pub f1: Cap,
    pub f2: PF<3>,
    #[ssz(with = "pm13")]
    pub f3: Cap,
    pub f4: PF<2>,
}
impl ProbeFields for P40 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P41 {
    #[ssz(with = "pm4")]
    pub f0: Cap,
    #[ssz(with = "pm5")]
    pub f1: Cap,
    pub f2: PV,
    #[ssz(with = "pm4")]
    pub f3: Cap,
    pub f4: PF<13>,
}
impl ProbeFields for P41 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P42 {
    pub f0: PF<13>,
    pub f1: PV,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s2: u32,
    #[ssz(with = "pm0")]
    pub f2: Cap,
    pub f3: PV,
    pub f4: PF<3>,
}
impl ProbeFields for P42 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P43 {
    #[ssz(with = "pm0")]
    pub f0: Cap,
    pub f1: PV,
    pub f2: PV,
    pub f3: PV,
    pub f4: PV,
}
impl ProbeFields for P43 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P44 {
    pub f0: PF<13>,
    pub f1: PF<2>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s2: u32,
    pub f2: PF<32>,
    pub f3: PF<8>,
    pub f4: PF<1>,
    pub f5: PF<4>,
}
impl ProbeFields for P44 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P45 {
    pub f0: PF<1>,
    pub f1: PV,
    pub f2: PV,
    pub f3: PF<32>,
    pub f4: PF<13>,
    pub f5: PF<1>,
}
impl ProbeFields for P45 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P46 {
    pub f0: PV,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s1: u32,
    pub f1: PV,
    #[ssz(with = "pm0")]
    pub f2: Cap,
    pub f3: PV,
    pub f4: PV,
    pub f5: PV,
}
impl ProbeFields for P46 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P47 {
    pub f0: PV,
    pub f1: PV,
    #[ssz(with = "pm0")]
    pub f2: Cap,
    pub f3: PV,
    pub f4: PV,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s5: u32,
    pub f5: PV,
}
impl ProbeFields for P47 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P48 {
    pub f0: PF<13>,
    pub f1: PV,
    pub f2: PF<3>,
    pub f3: PF<8>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s4: u32,
    pub f4: PV,
    pub f5: PF<5>,
    pub f6: PV,
}
impl ProbeFields for P48 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P49 {
    pub f0: PV,
    pub f1: PV,
    #[ssz(with = "pm0")]
    pub f2: Cap,
    pub f3: PF<1>,
    pub f4: PF<32>,
    #[ssz(with = "pm0")]
    pub f5: Cap,
    pub f6: PF<5>,
}
impl ProbeFields for P49 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P50 {
    pub f0: PV,
    pub f1: PV,
    pub f2: PV,
    pub f3: PV,
    pub f4: PV,
    pub f5: PV,
    pub f6: PV,
}
impl ProbeFields for P50 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P51 {
    pub f0: PF<32>,
    pub f1: PF<32>,
    pub f2: PV,
    pub f3: PV,
    #[ssz(with = "pm0")]
    pub f4: Cap,
    pub f5: PF<13>,
    #[ssz(with = "pm0")]
    pub f6: Cap,
    pub f7: PF<5>,
}
impl ProbeFields for P51 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take(), self.f7.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P52 {
    pub f0: PV,
    pub f1: PF<32>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s2: u32,
    pub f2: PV,
    pub f3: PF<5>,
    pub f4: PV,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s5: u32,
    pub f5: PV,
    #[ssz(with = "pm0")]
    pub f6: Cap,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s7: u32,
    pub f7: PV,
}
impl ProbeFields for P52 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take(), self.f7.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P53 {
    pub f0: PV,
    pub f1: PV,
    pub f2: PV,
    pub f3: PV,
    pub f4: PV,
    #[ssz(with = "pm0")]
    pub f5: Cap,
    pub f6: PV,
    pub f7: PV,
}
impl ProbeFields for P53 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take(), self.f7.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P54 {
    pub f0: PF<13>,
    pub f1: PF<5>,
    pub f2: PV,
    pub f3: PF<4>,
    pub f4: PF<32>,
    pub f5: PV,
    #[ssz(with = "pm32")]
    pub f6: Cap,
    pub f7: PF<2>,
    #[ssz(with = "pm0")]
    pub f8: Cap,
}
impl ProbeFields for P54 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take(), self.f7.take(), self.f8.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P55 {
    pub f0: PV,
    #[ssz(with = "pm0")]
    pub f1: Cap,
    pub f2: PV,
    pub f3: PF<4>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s4: u32,
    #[ssz(with = "pm0")]
    pub f4: Cap,
    pub f5: PV,
    pub f6: PV,
    pub f7: PV,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s8: u32,
    pub f8: PF<2>,
}
impl ProbeFields for P55 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take(), self.f7.take(), self.f8.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P56 {
    pub f0: PV,
    pub f1: PV,
    pub f2: PV,
    pub f3: PV,
    pub f4: PV,
    pub f5: PV,
    pub f6: PV,
    pub f7: PV,
    pub f8: PV,
}
impl ProbeFields for P56 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take(), self.f7.take(), self.f8.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P57 {
    pub f0: PF<1>,
    #[ssz(with = "pm32")]
    pub f1: Cap,
    pub f2: PV,
    pub f3: PF<2>,
    pub f4: PV,
    #[ssz(with = "pm4")]
    pub f5: Cap,
    pub f6: PV,
    pub f7: PV,
    #[ssz(with = "pm0")]
    pub f8: Cap,
    pub f9: PF<1>,
}
impl ProbeFields for P57 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take(), self.f7.take(), self.f8.take(), self.f9.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P58 {
    pub f0: PF<13>,
    #[ssz(with = "pm0")]
    pub f1: Cap,
    pub f2: PV,
    pub f3: PV,
    pub f4: PV,
    #[ssz(with = "pm0")]
    pub f5: Cap,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s6: u32,
    pub f6: PF<32>,
    pub f7: PF<3>,
    pub f8: PV,
    pub f9: PV,
}
impl ProbeFields for P58 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take(), self.f7.take(), self.f8.take(), self.f9.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P59 {
    pub f0: PV,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s1: u32,
    #[ssz(with = "pm0")]
    pub f1: Cap,
    #[ssz(with = "pm0")]
    pub f2: Cap,
    pub f3: PV,
    pub f4: PV,
    pub f5: PV,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s6: u32,
    pub f6: PV,
    pub f7: PV,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s8: u32,
    pub f8: PV,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s9: u32,
    #[ssz(with = "pm0")]
    pub f9: Cap,
}
impl ProbeFields for P59 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take(), self.f7.take(), self.f8.take(), self.f9.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P60 {
    pub f0: PF<3>,
    pub f1: PF<2>,
    pub f2: PF<1>,
    pub f3: PF<13>,
    pub f4: PV,
    pub f5: PF<8>,
    pub f6: PV,
    pub f7: PF<13>,
    #[ssz(with = "pm0")]
    pub f8: Cap,
    pub f9: PF<2>,
    #[ssz(with = "pm8")]
    pub f10: Cap,
    #[ssz(with = "pm8")]
    pub f11: Cap,
}
impl ProbeFields for P60 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take(), self.f7.take(), self.f8.take(), self.f9.take(), self.f10.take(), self.f11.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P61 {
    pub f0: PV,
    #[ssz(with = "pm0")]
    pub f1: Cap,
    pub f2: PF<3>,
    pub f3: PF<32>,
    pub f4: PV,
    pub f5: PV,
    pub f6: PV,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s7: u32,
    pub f7: PF<1>,
    pub f8: PV,
    pub f9: PV,
    #[ssz(with = "pm0")]
    pub f10: Cap,
    pub f11: PV,
}
impl ProbeFields for P61 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take(), self.f7.take(), self.f8.take(), self.f9.take(), self.f10.take(), self.f11.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P62 {
    #[ssz(skip_serializing, skip_deserializing)]
    pub s0: u32,
    pub f0: PV,
    pub f1: PV,
    pub f2: PV,
    #[ssz(with = "pm0")]
    pub f3: Cap,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s4: u32,
    #[ssz(with = "pm0")]
    pub f4: Cap,
    #[ssz(with = "pm0")]
    pub f5: Cap,
    pub f6: PV,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s7: u32,
    pub f7: PV,
    pub f8: PV,
    pub f9: PV,
    pub f10: PV,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s11: u32,
    pub f11: PV,
}
impl ProbeFields for P62 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take(), self.f7.take(), self.f8.take(), self.f9.take(), self.f10.take(), self.f11.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P63 {
    pub f0: PF<13>,
    pub f1: PV,
    pub f2: PF<3>,
    #[ssz(with = "pm0")]
    pub f3: Cap,
    pub f4: PF<13>,
    #[ssz(with = "pm5")]
    pub f5: Cap,
    pub f6: PF<8>,
    pub f7: PF<1>,
    pub f8: PV,
    pub f9: PF<2>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s10: u32,
    pub f10: PV,
    #[ssz(with = "pm1")]
    pub f11: Cap,
    pub f12: PF<4>,
    #[ssz(with = "pm0")]
    pub f13: Cap,
    pub f14: PF<1>,
    pub f15: PV,
    pub f16: PV,
}
impl ProbeFields for P63 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take(), self.f7.take(), self.f8.take(), self.f9.take(), self.f10.take(), self.f11.take(), self.f12.take(), self.f13.take(), self.f14.take(), self.f15.take(), self.f16.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P64 {
    pub f0: PF<32>,
    pub f1: PF<32>,
    pub f2: PV,
    pub f3: PV,
    pub f4: PV,
    pub f5: PF<4>,
    pub f6: PV,
    pub f7: PV,
    pub f8: PV,
    pub f9: PF<32>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s10: u32,
    pub f10: PV,
    #[ssz(with = "pm0")]
    pub f11: Cap,
    pub f12: PV,
    pub f13: PV,
    pub f14: PV,
    pub f15: PF<3>,
    pub f16: PV,
}
impl ProbeFields for P64 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take(), self.f7.take(), self.f8.take(), self.f9.take(), self.f10.take(), self.f11.take(), self.f12.take(), self.f13.take(), self.f14.take(), self.f15.take(), self.f16.take()] } }
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct P65 {
    pub f0: PV,
    #[ssz(with = "pm0")]
    pub f1: Cap,
    pub f2: PV,
    pub f3: PV,
    pub f4: PV,
    pub f5: PV,
    #[ssz(skip_serializing, skip_deserializing)]
    pub s6: u32,
    #[ssz(with = "pm0")]
    pub f6: Cap,
    pub f7: PV,
    pub f8: PV,
    pub f9: PV,
    pub f10: PV,
    pub f11: PV,
    pub f12: PV,
    #[ssz(with = "pm0")]
    pub f13: Cap,
    pub f14: PV,
    pub f15: PV,
    pub f16: PV,
}
impl ProbeFields for P65 { fn fields(self) -> Vec<Vec<u8>> { vec![self.f0.take(), self.f1.take(), self.f2.take(), self.f3.take(), self.f4.take(), self.f5.take(), self.f6.take(), self.f7.take(), self.f8.take(), self.f9.take(), self.f10.take(), self.f11.take(), self.f12.take(), self.f13.take(), self.f14.take(), self.f15.take(), self.f16.take()] } }
