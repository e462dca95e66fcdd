//! Stand-in for the `elf` crate 0.7: same header parsing and bounds rules for 32-bit files.
#![allow(clippy::all)]
use core::fmt;
use core::marker::PhantomData;

pub mod abi {
    pub const EI_NIDENT: usize = 16;
    pub const EM_RISCV: u16 = 243;
    pub const ET_NONE: u16 = 0;
    pub const ET_REL: u16 = 1;
    pub const ET_EXEC: u16 = 2;
    pub const ET_DYN: u16 = 3;
    pub const ET_CORE: u16 = 4;
    pub const PF_NONE: u32 = 0;
    pub const PF_X: u32 = 1;
    pub const PF_W: u32 = 2;
    pub const PF_R: u32 = 4;
    pub const PT_NULL: u32 = 0;
    pub const PT_LOAD: u32 = 1;
    pub const PT_DYNAMIC: u32 = 2;
    pub const PT_INTERP: u32 = 3;
    pub const PT_NOTE: u32 = 4;
    pub const PT_PHDR: u32 = 6;
    pub const PT_TLS: u32 = 7;
    pub const PT_GNU_EH_FRAME: u32 = 0x6474_e550;
    pub const PT_GNU_STACK: u32 = 0x6474_e551;
    pub const PT_GNU_RELRO: u32 = 0x6474_e552;
    pub const PN_XNUM: u16 = 0xffff;
    pub const EV_CURRENT: u8 = 1;
}
pub mod endian {
    pub trait EndianParse: Clone + Copy + Default + PartialEq + Eq {
        fn from_ei_data(d: u8) -> Result<Self, crate::ParseError>;
    }
    #[derive(Debug, Copy, Clone, Default, PartialEq, Eq)]
    pub struct LittleEndian;
    impl EndianParse for LittleEndian {
        fn from_ei_data(d: u8) -> Result<Self, crate::ParseError> {
            if d == 1 { Ok(Self) } else { Err(crate::ParseError::UnsupportedElfEndianness(d)) }
        }
    }
}
pub mod parse {
    pub use crate::ParseError;
    pub use crate::segment::ParsingTable;
}
pub mod file {
    #[derive(Debug, Copy, Clone, PartialEq, Eq)]
    pub enum Class {
        ELF32,
        ELF64,
    }
    #[derive(Debug, Copy, Clone, PartialEq, Eq)]
    pub struct FileHeader<E> {
        pub class: Class,
        pub endianness: E,
        pub version: u32,
        pub osabi: u8,
        pub abiversion: u8,
        pub e_type: u16,
        pub e_machine: u16,
        pub e_entry: u64,
        pub e_phoff: u64,
        pub e_shoff: u64,
        pub e_flags: u32,
        pub e_ehsize: u16,
        pub e_phentsize: u16,
        pub e_phnum: u16,
        pub e_shentsize: u16,
        pub e_shnum: u16,
        pub e_shstrndx: u16,
    }
}

#[derive(Debug)]
pub enum ParseError {
    BadMagic([u8; 4]),
    UnsupportedElfClass(u8),
    UnsupportedElfEndianness(u8),
    UnsupportedVersion((u64, u64)),
    BadOffset(u64),
    BadEntsize((u64, u64)),
    SliceReadError((usize, usize)),
    IntegerOverflow,
}
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
}
impl std::error::Error for ParseError {}

pub mod segment {
    use core::marker::PhantomData;
    #[derive(Debug, Copy, Clone, PartialEq, Eq)]
    pub struct ProgramHeader {
        pub p_type: u32,
        pub p_offset: u64,
        pub p_vaddr: u64,
        pub p_paddr: u64,
        pub p_filesz: u64,
        pub p_memsz: u64,
        pub p_flags: u32,
        pub p_align: u64,
    }
    pub type SegmentTable<'data, E> = ParsingTable<'data, E, ProgramHeader>;
    #[derive(Debug, Clone, Copy)]
    pub struct ParsingTable<'data, E, P> {
        pub(crate) data: &'data [u8],
        pub(crate) class: crate::file::Class,
        pub(crate) _p: PhantomData<(E, P)>,
    }
    impl<'data, E> ParsingTable<'data, E, ProgramHeader> {
        fn entsize(&self) -> usize { if self.class == crate::file::Class::ELF32 { 32 } else { 56 } }
        pub fn len(&self) -> usize { self.data.len() / self.entsize() }
        pub fn is_empty(&self) -> bool { self.len() == 0 }
        pub fn get(&self, i: usize) -> Result<ProgramHeader, crate::ParseError> {
            if i >= self.len() { return Err(crate::ParseError::BadOffset(i as u64)); }
            let b = &self.data[i * self.entsize()..];
            let w = |o: usize| u64::from(u32::from_le_bytes(b[o..o + 4].try_into().unwrap()));
            let d = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
            Ok(if self.class == crate::file::Class::ELF32 {
                ProgramHeader {
                    p_type: w(0) as u32, p_offset: w(4), p_vaddr: w(8), p_paddr: w(12),
                    p_filesz: w(16), p_memsz: w(20), p_flags: w(24) as u32, p_align: w(28),
                }
            } else {
                ProgramHeader {
                    p_type: w(0) as u32, p_flags: w(4) as u32, p_offset: d(8), p_vaddr: d(16), p_paddr: d(24),
                    p_filesz: d(32), p_memsz: d(40), p_align: d(48),
                }
            })
        }
        pub fn iter(&self) -> std::vec::IntoIter<ProgramHeader> {
            (0..self.len()).map(|i| self.get(i).unwrap()).collect::<Vec<_>>().into_iter()
        }
    }
    impl<'data, E> IntoIterator for ParsingTable<'data, E, ProgramHeader> {
        type IntoIter = std::vec::IntoIter<ProgramHeader>;
        type Item = ProgramHeader;
        fn into_iter(self) -> Self::IntoIter { self.iter() }
    }
}

#[derive(Debug)]
pub struct ElfBytes<'data, E: endian::EndianParse> {
    pub ehdr: file::FileHeader<E>,
    data: &'data [u8],
    phdrs: Option<(usize, usize)>,
}

fn get<'a>(d: &'a [u8], s: usize, e: usize) -> Result<&'a [u8], ParseError> {
    d.get(s..e).ok_or(ParseError::SliceReadError((s, e)))
}

impl<'data, E: endian::EndianParse> ElfBytes<'data, E> {
    pub fn minimal_parse(data: &'data [u8]) -> Result<Self, ParseError> {
        let id = get(data, 0, 16)?;
        if id[..4] != [0x7f, b'E', b'L', b'F'] { return Err(ParseError::BadMagic(id[..4].try_into().unwrap())); }
        if id[6] != 1 { return Err(ParseError::UnsupportedVersion((u64::from(id[6]), 1))); }
        let endianness = E::from_ei_data(id[5])?;
        let class = match id[4] {
            1 => file::Class::ELF32,
            2 => file::Class::ELF64,
            c => return Err(ParseError::UnsupportedElfClass(c)),
        };
        let b32 = class == file::Class::ELF32;
        let t = get(data, 16, if b32 { 52 } else { 64 })?;
        let h = |o: usize| u16::from_le_bytes(t[o..o + 2].try_into().unwrap());
        let w = |o: usize| u32::from_le_bytes(t[o..o + 4].try_into().unwrap());
        let d = |o: usize| u64::from_le_bytes(t[o..o + 8].try_into().unwrap());
        let (e_entry, e_phoff, e_shoff, r) = if b32 {
            (u64::from(w(8)), u64::from(w(12)), u64::from(w(16)), 20)
        } else {
            (d(8), d(16), d(24), 32)
        };
        let ehdr = file::FileHeader {
            class, endianness, version: w(4), osabi: id[7], abiversion: id[8],
            e_type: h(0), e_machine: h(2), e_entry, e_phoff, e_shoff,
            e_flags: w(r), e_ehsize: h(r + 4), e_phentsize: h(r + 6), e_phnum: h(r + 8),
            e_shentsize: h(r + 10), e_shnum: h(r + 12), e_shstrndx: h(r + 14),
        };
        let shent = if b32 { 40usize } else { 64 };
        let phent = if b32 { 32usize } else { 56 };
        let shoff: usize = ehdr.e_shoff as usize;
        let sh0 = |off: usize| -> Result<&[u8], ParseError> {
            get(data, shoff, shoff.checked_add(shent).ok_or(ParseError::IntegerOverflow)?).map(|s| &s[off..])
        };
        if shoff > 0 {
            let mut n = usize::from(ehdr.e_shnum);
            if n == 0 {
                n = if b32 { u32::from_le_bytes(sh0(20)?[..4].try_into().unwrap()) as usize }
                    else { u64::from_le_bytes(sh0(32)?[..8].try_into().unwrap()) as usize };
            }
            if usize::from(ehdr.e_shentsize) != shent {
                return Err(ParseError::BadEntsize((u64::from(ehdr.e_shentsize), shent as u64)));
            }
            let size = shent.checked_mul(n).ok_or(ParseError::IntegerOverflow)?;
            get(data, shoff, shoff.checked_add(size).ok_or(ParseError::IntegerOverflow)?)?;
        }
        let phdrs = if ehdr.e_phnum == 0 {
            None
        } else {
            let mut n = usize::from(ehdr.e_phnum);
            if ehdr.e_phnum == abi::PN_XNUM {
                n = u32::from_le_bytes(sh0(if b32 { 28 } else { 44 })?[..4].try_into().unwrap()) as usize;
            }
            if usize::from(ehdr.e_phentsize) != phent {
                return Err(ParseError::BadEntsize((u64::from(ehdr.e_phentsize), phent as u64)));
            }
            let s = ehdr.e_phoff as usize;
            let size = phent.checked_mul(n).ok_or(ParseError::IntegerOverflow)?;
            let e = s.checked_add(size).ok_or(ParseError::IntegerOverflow)?;
            get(data, s, e)?;
            Some((s, e))
        };
        Ok(Self { ehdr, data, phdrs })
    }

    pub fn segments(&self) -> Option<segment::SegmentTable<'data, E>> {
        self.phdrs.map(|(s, e)| segment::ParsingTable { data: &self.data[s..e], class: self.ehdr.class, _p: PhantomData })
    }

    pub fn segment_data(&self, p: &segment::ProgramHeader) -> Result<&'data [u8], ParseError> {
        let s = p.p_offset as usize;
        let e = s.checked_add(p.p_filesz as usize).ok_or(ParseError::IntegerOverflow)?;
        get(self.data, s, e)
    }
}
