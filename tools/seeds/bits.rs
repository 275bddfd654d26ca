// ---- helpers shared by the demonstrations: a small bitstream writer and a logger that keeps messages
#[allow(dead_code)]
#[derive(Clone, Default)]
pub struct W { pub bits: Vec<bool>, width: Vec<u64>, lens: Vec<usize> }
#[allow(dead_code)]
impl W {
    pub fn new() -> W { let mut w = W { bits: vec![], width: vec![2], lens: vec![] }; w.fixed(0xdec04342u32 as u64, 32); w }
    pub fn raw() -> W { W { bits: vec![], width: vec![2], lens: vec![] } }
    pub fn fixed(&mut self, v: u64, n: u64) -> &mut W { for i in 0..n { self.bits.push((v >> i) & 1 == 1); } self }
    pub fn vbr(&mut self, mut v: u64, n: u64) -> &mut W {
        let lim = 1u64 << (n - 1);
        while v >= lim { self.fixed((v & (lim - 1)) | lim, n); v >>= n - 1; }
        self.fixed(v, n)
    }
    pub fn align(&mut self) -> &mut W { while self.bits.len() % 32 != 0 { self.bits.push(false); } self }
    pub fn id(&mut self, v: u64) -> &mut W { let n = *self.width.last().unwrap(); self.fixed(v, n) }
    pub fn enter(&mut self, block: u64, width: u64) -> &mut W {
        self.id(1); self.vbr(block, 8); self.vbr(width, 4); self.align();
        self.lens.push(self.bits.len()); self.fixed(0, 32); self.width.push(width); self
    }
    pub fn end(&mut self) -> &mut W {
        self.id(0); self.align(); self.width.pop();
        let at = self.lens.pop().unwrap(); let n = ((self.bits.len() - at - 32) / 32) as u64;
        for i in 0..32 { self.bits[at + i] = (n >> i) & 1 == 1; }
        self
    }
    pub fn rec(&mut self, code: u64, fields: &[u64]) -> &mut W {
        self.id(3); self.vbr(code, 6); self.vbr(fields.len() as u64, 6);
        for f in fields { self.vbr(*f, 6); }
        self
    }
    pub fn text(&mut self, code: u64, s: &str) -> &mut W { let f: Vec<u64> = s.bytes().map(|b| b as u64).collect(); self.rec(code, &f) }
    pub fn bytes(&self) -> Vec<u8> {
        self.bits.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| a | ((*b as u8) << i))).collect()
    }
}
pub static LOG: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { LOG.lock().unwrap().push(format!("{}", r.args())); }
    fn flush(&self) {}
}
#[allow(dead_code)]
pub fn listen() { let _ = log::set_boxed_logger(Box::new(L)); log::set_max_level(log::LevelFilter::Debug); }
#[allow(dead_code)]
pub fn heard(prefix: &str) -> Vec<String> { LOG.lock().unwrap().iter().filter(|s| s.starts_with(prefix)).cloned().collect() }
/// identification, module (built by `f` after the version record), string table
#[allow(dead_code)]
pub fn bitcode(strtab: &str, f: impl FnOnce(&mut W)) -> Vec<u8> {
    let mut w = W::new();
    w.enter(13, 5).text(1, "LLVM15.0.0").rec(2, &[0]).end();
    w.enter(8, 3).rec(1, &[2]);
    f(&mut w);
    w.end();
    w.enter(23, 3).text(1, strtab).end();
    w.bytes()
}
/// an empty value symbol table, which every module needs
#[allow(dead_code)]
pub fn vst(w: &mut W) { w.enter(14, 4).end(); }
