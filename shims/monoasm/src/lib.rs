//! Stand-in for the `monoasm` crate (an x86-64 run-time assembler), which is not available offline.
//!
//! Covers what monoruby uses: two code pages, a data page, labels, patching of `jmp`, and the
//! instructions that occur in `monoasm!` blocks. Every jump has a 32-bit displacement.
use std::ptr::NonNull;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct CodePtr(NonNull<u8>);
impl CodePtr {
    pub fn as_ptr(&self) -> *mut u8 {
        self.0.as_ptr()
    }
    pub fn from(p: *mut u8) -> Self {
        CodePtr(NonNull::new(p).unwrap())
    }
}
impl std::fmt::Debug for CodePtr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl std::ops::Sub<CodePtr> for CodePtr {
    type Output = i64;
    fn sub(self, o: CodePtr) -> i64 {
        self.0.as_ptr() as i64 - o.0.as_ptr() as i64
    }
}
impl std::ops::Add<usize> for CodePtr {
    type Output = CodePtr;
    fn add(self, o: usize) -> CodePtr {
        CodePtr(NonNull::new((self.0.as_ptr() as usize + o) as *mut u8).unwrap())
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct DestLabel(u32);

pub trait AsLabel {
    fn id(&self) -> u32;
}
impl AsLabel for DestLabel {
    fn id(&self) -> u32 {
        self.0
    }
}
impl<T: AsLabel + ?Sized> AsLabel for &T {
    fn id(&self) -> u32 {
        (**self).id()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Pos(pub usize);
impl std::ops::Sub for Pos {
    type Output = usize;
    fn sub(self, o: Pos) -> usize {
        self.0 - o.0
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Opnd {
    Reg(u8),
    Xmm(u8),
    Imm(i64),
    Mem(u8, Option<u8>, u8, i32),
    Rip(u32),
    Label(u32),
}
use Opnd::*;

pub fn regno(n: u64) -> u8 {
    assert!(n < 16, "no such register: {n}");
    n as u8
}
pub fn emit(jit: &mut JitMemory, mn: &'static str, ops: &[Opnd]) {
    jit.emit(mn, ops)
}
pub fn bind(jit: &mut JitMemory, l: &impl AsLabel) {
    jit.bind_label(l)
}

enum Ref {
    Rel32,
    Abs64,
}

const CODE: usize = 96 << 20;
const DATA: usize = 64 << 20;

pub struct JitMemory {
    base: *mut u8,
    page: usize,
    pos: [usize; 2],
    data: usize,
    labels: Vec<Option<usize>>,
    /// Places to be filled with the address of a label: (place, end of the instruction, label).
    refs: Vec<(usize, usize, u32, Ref)>,
}

impl Drop for JitMemory {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base as _, CODE * 2 + DATA) };
    }
}

impl Default for JitMemory {
    fn default() -> Self {
        Self::new()
    }
}

impl JitMemory {
    pub fn new() -> Self {
        let base = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                CODE * 2 + DATA,
                libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        assert!(base != libc::MAP_FAILED, "mmap for code failed");
        JitMemory { base: base as _, page: 0, pos: [0, 0], data: 0, labels: vec![], refs: vec![] }
    }
    pub fn label(&mut self) -> DestLabel {
        self.labels.push(None);
        DestLabel(self.labels.len() as u32 - 1)
    }
    fn here(&self) -> usize {
        self.base as usize + self.page * CODE + self.pos[self.page]
    }
    pub fn bind_label(&mut self, l: impl AsLabel) {
        let here = self.here();
        let old = self.labels[l.id() as usize].replace(here);
        assert!(old.is_none(), "label {} is bound twice", l.id());
    }
    pub fn select_page(&mut self, page: usize) {
        assert!(page < 2);
        self.page = page;
    }
    pub fn get_page(&self) -> usize {
        self.page
    }
    pub fn get_current(&self) -> usize {
        self.pos[self.page]
    }
    pub fn get_current_address(&self) -> CodePtr {
        CodePtr::from(self.here() as *mut u8)
    }
    pub fn get_label_address(&self, l: &DestLabel) -> CodePtr {
        CodePtr::from(self.labels[l.0 as usize].expect("address of a label that is not bound") as *mut u8)
    }
    pub fn get_label_addr<T: Copy>(&self, l: &DestLabel) -> T {
        let p = self.get_label_address(l).as_ptr();
        assert_eq!(std::mem::size_of::<T>(), 8);
        unsafe { std::mem::transmute_copy(&p) }
    }
    pub fn finalize(&mut self) {
        let refs = std::mem::take(&mut self.refs);
        for (place, end, l, kind) in refs {
            let dest = self.labels[l as usize].unwrap_or_else(|| panic!("label {l} is used but not bound"));
            unsafe {
                match kind {
                    Ref::Rel32 => (place as *mut i32).write_unaligned(i32::try_from(dest as i64 - end as i64).unwrap()),
                    Ref::Abs64 => (place as *mut u64).write_unaligned(dest as u64),
                }
            }
        }
    }
    pub fn set_writable(&mut self) {}
    pub fn set_executable(&mut self) {}
    /// Change the `jmp` or `call` at `at` so that it goes to the label.
    pub fn apply_jmp_patch_address(&mut self, at: CodePtr, l: &DestLabel) {
        let at = at.as_ptr();
        // The instruction there may be a `jmp` or a `call`; only its displacement changes.
        assert!(matches!(unsafe { at.read() }, 0xe8 | 0xe9), "patch point is not a jmp or a call");
        self.refs.push((at as usize + 1, at as usize + 5, l.0, Ref::Rel32));
        if self.labels[l.0 as usize].is_some() {
            let (place, end, ..) = self.refs.pop().unwrap();
            let dest = self.labels[l.0 as usize].unwrap();
            unsafe { (place as *mut i32).write_unaligned(i32::try_from(dest as i64 - end as i64).unwrap()) };
        }
    }

    // data

    fn reserve(&mut self, size: usize, align: usize) -> *mut u8 {
        self.data = (self.data + align - 1) & !(align - 1);
        let p = unsafe { self.base.add(CODE * 2 + self.data) };
        self.data += size;
        assert!(self.data <= DATA, "data page is full");
        p
    }
    fn data_label(&mut self, p: *mut u8) -> DestLabel {
        let l = self.label();
        self.labels[l.0 as usize] = Some(p as usize);
        l
    }
    pub fn data(&mut self, size: usize) -> DestLabel {
        let p = self.reserve(size, 16);
        self.data_label(p)
    }
    pub fn data_i32(&mut self, v: i32) -> DestLabel {
        let p = self.reserve(4, 4);
        unsafe { (p as *mut i32).write(v) };
        self.data_label(p)
    }
    pub fn data_i64(&mut self, v: i64) -> DestLabel {
        let p = self.reserve(8, 8);
        unsafe { (p as *mut i64).write(v) };
        self.data_label(p)
    }
    pub fn const_i32(&mut self, v: i32) -> DestLabel {
        self.data_i32(v)
    }
    /// Sixteen aligned bytes, so that the constant can be an operand of a packed instruction.
    pub fn const_i64(&mut self, v: i64) -> DestLabel {
        let p = self.reserve(16, 16);
        unsafe { (p as *mut i64).write(v) };
        self.data_label(p)
    }
    pub fn const_f64(&mut self, v: f64) -> DestLabel {
        self.const_i64(v.to_bits() as i64)
    }
    pub fn const_align8(&mut self) -> DestLabel {
        let p = self.reserve(0, 8);
        self.data_label(p)
    }
    pub fn abs_address(&mut self, l: DestLabel) {
        let p = self.reserve(8, 8);
        self.refs.push((p as usize, 0, l.0, Ref::Abs64));
    }

    // encoding

    fn b(&mut self, b: u8) {
        let p = self.here() as *mut u8;
        unsafe { p.write(b) };
        self.pos[self.page] += 1;
        assert!(self.pos[self.page] < CODE, "code page is full");
    }
    fn d(&mut self, v: i32) {
        for b in v.to_le_bytes() {
            self.b(b);
        }
    }
    fn rel(&mut self, l: u32, trailing: usize) {
        let p = self.here();
        self.refs.push((p, p + 4 + trailing, l, Ref::Rel32));
        self.d(0);
    }
    /// [prefix] [REX] opcode ModRM [SIB] [disp]. `trailing` is the size of an immediate that follows.
    fn op(&mut self, prefix: &[u8], w: bool, opcode: &[u8], reg: u8, rm: Opnd, byte_regs: bool, trailing: usize) {
        for p in prefix {
            self.b(*p);
        }
        let (mut x, mut bb) = (0, 0);
        let mut need = false;
        match rm {
            Reg(r) | Xmm(r) => {
                bb = r >> 3;
                need |= byte_regs && matches!(rm, Reg(4..=7));
            }
            Mem(base, index, ..) => {
                bb = base >> 3;
                x = index.map_or(0, |i| i >> 3);
            }
            Rip(_) => {}
            _ => panic!("bad operand {rm:?}"),
        }
        let rex = 0x40 | (w as u8) << 3 | (reg >> 3) << 2 | x << 1 | bb;
        if rex != 0x40 || need || (byte_regs && (4..8).contains(&reg)) {
            self.b(rex);
        }
        for o in opcode {
            self.b(*o);
        }
        let r = (reg & 7) << 3;
        match rm {
            Reg(n) | Xmm(n) => self.b(0xc0 | r | (n & 7)),
            Rip(l) => {
                self.b(r | 5);
                self.rel(l, trailing);
            }
            Mem(base, index, scale, disp) => {
                let small = i8::try_from(disp).is_ok();
                let mode = if disp == 0 && base & 7 != 5 {
                    0
                } else if small {
                    0x40
                } else {
                    0x80
                };
                match index {
                    Some(i) => {
                        assert!(i != 4, "rsp cannot be an index");
                        self.b(mode | r | 4);
                        self.b(scale << 6 | (i & 7) << 3 | (base & 7));
                    }
                    None if base & 7 == 4 => {
                        self.b(mode | r | 4);
                        self.b(0x24);
                    }
                    None => self.b(mode | r | (base & 7)),
                }
                match mode {
                    0x40 => self.b(disp as u8),
                    0x80 => self.d(disp),
                    _ => {}
                }
            }
            _ => unreachable!(),
        }
    }
    fn imm32(&mut self, i: i64) {
        let v = i32::try_from(i).unwrap_or_else(|_| panic!("immediate {i:#x} does not fit"));
        self.d(v);
    }
    /// For 32-bit operations the unsigned range is fine too.
    fn imm32u(&mut self, i: i64) {
        let v = i32::try_from(i).or_else(|_| u32::try_from(i).map(|u| u as i32)).unwrap_or_else(|_| panic!("immediate {i:#x} does not fit"));
        self.d(v);
    }

    /// add or adc sbb and sub xor cmp
    fn alu(&mut self, n: u8, size: u8, ops: &[Opnd], name: &str) {
        let w = size == 8;
        let pre: &[u8] = if size == 2 { &[0x66] } else { &[] };
        match (ops[0], ops[1], size) {
            (Reg(d), Reg(s), 1) => self.op(pre, false, &[n * 8], s, Reg(d), true, 0),
            (Reg(d), m @ (Mem(..) | Rip(_)), 1) => self.op(pre, false, &[n * 8 + 2], d, m, true, 0),
            (d @ (Reg(_) | Mem(..) | Rip(_)), Imm(i), 1) => {
                self.op(pre, false, &[0x80], n, d, true, 1);
                self.b(i as u8);
            }
            (d, Reg(s), _) => self.op(pre, w, &[n * 8 + 1], s, d, false, 0),
            (Reg(d), m @ (Mem(..) | Rip(_)), _) => self.op(pre, w, &[n * 8 + 3], d, m, false, 0),
            (d, Imm(i), _) if i8::try_from(i).is_ok() => {
                self.op(pre, w, &[0x83], n, d, false, 1);
                self.b(i as u8);
            }
            (d, Imm(i), 2) => {
                self.op(pre, w, &[0x81], n, d, false, 2);
                let v = i as u16;
                self.b(v as u8);
                self.b((v >> 8) as u8);
            }
            (d, Imm(i), _) => {
                self.op(pre, w, &[0x81], n, d, false, 4);
                if w {
                    self.imm32(i)
                } else {
                    self.imm32u(i)
                }
            }
            _ => panic!("{name} {ops:?}"),
        }
    }
    fn shift(&mut self, n: u8, ops: &[Opnd], name: &str) {
        match (ops[0], ops[1]) {
            (d, Imm(i)) => {
                self.op(&[], true, &[0xc1], n, d, false, 1);
                self.b(u8::try_from(i).expect("shift count"));
            }
            (d, Reg(1)) => self.op(&[], true, &[0xd3], n, d, false, 0),
            _ => panic!("{name} {ops:?}"),
        }
    }
    fn sse(&mut self, prefix: &[u8], opcode: u8, ops: &[Opnd], name: &str) {
        match (ops[0], ops[1]) {
            (Xmm(d), s @ (Xmm(_) | Mem(..) | Rip(_))) => self.op(prefix, false, &[0x0f, opcode], d, s, false, 0),
            _ => panic!("{name} {ops:?}"),
        }
    }

    pub fn emit(&mut self, mn: &'static str, ops: &[Opnd]) {
        if let Some(cc) = mn.strip_prefix('j').and_then(cond) {
            match ops {
                [Label(l)] => {
                    self.b(0x0f);
                    self.b(0x80 | cc);
                    return self.rel(*l, 0);
                }
                _ => panic!("{mn} {ops:?}"),
            }
        }
        if let Some(cc) = mn.strip_prefix("set").and_then(cond) {
            return self.op(&[], false, &[0x0f, 0x90 | cc], 0, ops[0], true, 0);
        }
        if let Some(cc) = mn.strip_prefix("cmov").and_then(|s| s.strip_suffix('q')).and_then(cond) {
            match ops {
                [Reg(d), s] => return self.op(&[], true, &[0x0f, 0x40 | cc], *d, *s, false, 0),
                _ => panic!("{mn} {ops:?}"),
            }
        }
        match mn {
            "addq" => self.alu(0, 8, ops, mn),
            "addl" => self.alu(0, 4, ops, mn),
            "addw" => self.alu(0, 2, ops, mn),
            "addb" => self.alu(0, 1, ops, mn),
            "orq" => self.alu(1, 8, ops, mn),
            "orl" => self.alu(1, 4, ops, mn),
            "orb" => self.alu(1, 1, ops, mn),
            "adcq" => self.alu(2, 8, ops, mn),
            "sbbq" => self.alu(3, 8, ops, mn),
            "andq" => self.alu(4, 8, ops, mn),
            "andl" => self.alu(4, 4, ops, mn),
            "andb" => self.alu(4, 1, ops, mn),
            "subq" => self.alu(5, 8, ops, mn),
            "subl" => self.alu(5, 4, ops, mn),
            "subw" => self.alu(5, 2, ops, mn),
            "subb" => self.alu(5, 1, ops, mn),
            "xorq" => self.alu(6, 8, ops, mn),
            "xorl" => self.alu(6, 4, ops, mn),
            "cmpq" => self.alu(7, 8, ops, mn),
            "cmpl" => self.alu(7, 4, ops, mn),
            "cmpw" => self.alu(7, 2, ops, mn),
            "cmpb" => self.alu(7, 1, ops, mn),
            "testq" | "testl" => {
                let w = mn == "testq";
                match (ops[0], ops[1]) {
                    (d, Reg(s)) => self.op(&[], w, &[0x85], s, d, false, 0),
                    (d, Imm(i)) => {
                        self.op(&[], w, &[0xf7], 0, d, false, 4);
                        if w {
                            self.imm32(i)
                        } else {
                            self.imm32u(i)
                        }
                    }
                    _ => panic!("{mn} {ops:?}"),
                }
            }
            "testb" => match (ops[0], ops[1]) {
                (d, Imm(i)) => {
                    self.op(&[], false, &[0xf6], 0, d, true, 1);
                    self.b(i as u8);
                }
                (d, Reg(s)) => self.op(&[], false, &[0x84], s, d, true, 0),
                _ => panic!("{mn} {ops:?}"),
            },
            "movq" => match (ops[0], ops[1]) {
                (Reg(d), Reg(s)) => self.op(&[], true, &[0x89], s, Reg(d), false, 0),
                (m @ (Mem(..) | Rip(_)), Reg(s)) => self.op(&[], true, &[0x89], s, m, false, 0),
                (Reg(d), m @ (Mem(..) | Rip(_))) => self.op(&[], true, &[0x8b], d, m, false, 0),
                (Reg(d), Imm(i)) if i32::try_from(i).is_ok() => {
                    self.op(&[], true, &[0xc7], 0, Reg(d), false, 4);
                    self.d(i as i32);
                }
                (Reg(d), Imm(i)) => {
                    self.b(0x48 | d >> 3);
                    self.b(0xb8 | (d & 7));
                    for b in i.to_le_bytes() {
                        self.b(b);
                    }
                }
                (m @ (Mem(..) | Rip(_)), Imm(i)) if i32::try_from(i).is_ok() => {
                    self.op(&[], true, &[0xc7], 0, m, false, 4);
                    self.d(i as i32);
                }
                // an immediate of 64 bits is stored in two halves
                (Mem(b, x, s, disp), Imm(i)) => {
                    self.op(&[], false, &[0xc7], 0, Mem(b, x, s, disp), false, 4);
                    self.d(i as i32);
                    self.op(&[], false, &[0xc7], 0, Mem(b, x, s, disp + 4), false, 4);
                    self.d((i >> 32) as i32);
                }
                (Xmm(d), s @ (Xmm(_) | Mem(..) | Rip(_))) => self.op(&[0xf3], false, &[0x0f, 0x7e], d, s, false, 0),
                (m @ (Mem(..) | Rip(_)), Xmm(s)) => self.op(&[0x66], false, &[0x0f, 0xd6], s, m, false, 0),
                (Xmm(d), Reg(s)) => self.op(&[0x66], true, &[0x0f, 0x6e], d, Reg(s), false, 0),
                (Reg(d), Xmm(s)) => self.op(&[0x66], true, &[0x0f, 0x7e], s, Reg(d), false, 0),
                _ => panic!("{mn} {ops:?}"),
            },
            "movl" => match (ops[0], ops[1]) {
                (d, Reg(s)) => self.op(&[], false, &[0x89], s, d, false, 0),
                (Reg(d), m @ (Mem(..) | Rip(_))) => self.op(&[], false, &[0x8b], d, m, false, 0),
                (d, Imm(i)) => {
                    self.op(&[], false, &[0xc7], 0, d, false, 4);
                    self.imm32u(i);
                }
                _ => panic!("{mn} {ops:?}"),
            },
            "movw" => match (ops[0], ops[1]) {
                (d, Reg(s)) => self.op(&[0x66], false, &[0x89], s, d, false, 0),
                (d, Imm(i)) => {
                    self.op(&[0x66], false, &[0xc7], 0, d, false, 2);
                    let v = i as u16;
                    self.b(v as u8);
                    self.b((v >> 8) as u8);
                }
                _ => panic!("{mn} {ops:?}"),
            },
            "movb" => match (ops[0], ops[1]) {
                (d, Reg(s)) => self.op(&[], false, &[0x88], s, d, true, 0),
                (Reg(d), m) => self.op(&[], false, &[0x8a], d, m, true, 0),
                (d, Imm(i)) => {
                    self.op(&[], false, &[0xc6], 0, d, true, 1);
                    self.b(i as u8);
                }
                _ => panic!("{mn} {ops:?}"),
            },
            "movzxb" | "movzxw" | "movsxb" | "movsxw" | "movsxl" => match (ops[0], ops[1]) {
                (Reg(d), s) => match mn {
                    "movzxb" => self.op(&[], true, &[0x0f, 0xb6], d, s, true, 0),
                    "movzxw" => self.op(&[], true, &[0x0f, 0xb7], d, s, false, 0),
                    "movsxb" => self.op(&[], true, &[0x0f, 0xbe], d, s, true, 0),
                    "movsxw" => self.op(&[], true, &[0x0f, 0xbf], d, s, false, 0),
                    _ => self.op(&[], true, &[0x63], d, s, false, 0),
                },
                _ => panic!("{mn} {ops:?}"),
            },
            "lea" => match (ops[0], ops[1]) {
                (Reg(d), m @ (Mem(..) | Rip(_))) => self.op(&[], true, &[0x8d], d, m, false, 0),
                _ => panic!("{mn} {ops:?}"),
            },
            "negq" => self.op(&[], true, &[0xf7], 3, ops[0], false, 0),
            "notq" => self.op(&[], true, &[0xf7], 2, ops[0], false, 0),
            "idiv" => self.op(&[], true, &[0xf7], 7, ops[0], false, 0),
            "div" => self.op(&[], true, &[0xf7], 6, ops[0], false, 0),
            "imul" => match (ops[0], ops[1]) {
                (Reg(d), s) => self.op(&[], true, &[0x0f, 0xaf], d, s, false, 0),
                _ => panic!("{mn} {ops:?}"),
            },
            "cqo" => {
                self.b(0x48);
                self.b(0x99);
            }
            "rolq" => self.shift(0, ops, mn),
            "rorq" => self.shift(1, ops, mn),
            "shlq" | "salq" => self.shift(4, ops, mn),
            "shrq" => self.shift(5, ops, mn),
            "sarq" => self.shift(7, ops, mn),
            "lzcntq" => match (ops[0], ops[1]) {
                (Reg(d), s) => self.op(&[0xf3], true, &[0x0f, 0xbd], d, s, false, 0),
                _ => panic!("{mn} {ops:?}"),
            },
            "xchgq" => match (ops[0], ops[1]) {
                (Reg(d), s) => self.op(&[], true, &[0x87], d, s, false, 0),
                _ => panic!("{mn} {ops:?}"),
            },
            "pushq" => match ops[0] {
                Reg(r) => {
                    if r >= 8 {
                        self.b(0x41);
                    }
                    self.b(0x50 | (r & 7));
                }
                m => self.op(&[], false, &[0xff], 6, m, false, 0),
            },
            "popq" => match ops[0] {
                Reg(r) => {
                    if r >= 8 {
                        self.b(0x41);
                    }
                    self.b(0x58 | (r & 7));
                }
                m => self.op(&[], false, &[0x8f], 0, m, false, 0),
            },
            "ret" => self.b(0xc3),
            "leave" => self.b(0xc9),
            "call" => match ops[0] {
                Label(l) => {
                    self.b(0xe8);
                    self.rel(l, 0);
                }
                Imm(i) => {
                    self.b(0xe8);
                    self.imm32(i);
                }
                x => self.op(&[], false, &[0xff], 2, x, false, 0),
            },
            "jmp" => match ops[0] {
                Label(l) => {
                    self.b(0xe9);
                    self.rel(l, 0);
                }
                Imm(i) => {
                    self.b(0xe9);
                    self.imm32(i);
                }
                x => self.op(&[], false, &[0xff], 4, x, false, 0),
            },
            "addsd" => self.sse(&[0xf2], 0x58, ops, mn),
            "mulsd" => self.sse(&[0xf2], 0x59, ops, mn),
            "subsd" => self.sse(&[0xf2], 0x5c, ops, mn),
            "divsd" => self.sse(&[0xf2], 0x5e, ops, mn),
            "sqrtsd" => self.sse(&[0xf2], 0x51, ops, mn),
            "ucomisd" => self.sse(&[0x66], 0x2e, ops, mn),
            "xorps" => self.sse(&[], 0x57, ops, mn),
            "xorpd" => self.sse(&[0x66], 0x57, ops, mn),
            "andpd" => self.sse(&[0x66], 0x54, ops, mn),
            "movsd" => self.sse(&[0xf2], 0x10, ops, mn),
            "cvtsi2sdq" => match (ops[0], ops[1]) {
                (Xmm(d), s) => self.op(&[0xf2], true, &[0x0f, 0x2a], d, s, false, 0),
                _ => panic!("{mn} {ops:?}"),
            },
            "cvttsd2siq" => match (ops[0], ops[1]) {
                (Reg(d), s) => self.op(&[0xf2], true, &[0x0f, 0x2c], d, s, false, 0),
                _ => panic!("{mn} {ops:?}"),
            },
            _ => panic!("unknown instruction {mn} {ops:?}"),
        }
    }
}

fn cond(s: &str) -> Option<u8> {
    Some(match s {
        "o" => 0,
        "no" => 1,
        "b" | "c" | "nae" => 2,
        "ae" | "nb" | "nc" => 3,
        "e" | "z" | "eq" => 4,
        "ne" | "nz" => 5,
        "be" | "na" => 6,
        "a" | "nbe" => 7,
        "s" => 8,
        "ns" => 9,
        "p" => 10,
        "np" => 11,
        "lt" | "l" => 12,
        "ge" => 13,
        "le" => 14,
        "gt" | "g" => 15,
        _ => return None,
    })
}
