//! Reference tables (Unicode 15.1) shared by the symbolic engine and, in the
//! same format, by the native replay program.
use std::collections::HashMap;

#[derive(Default)]
pub struct Table { pages: Vec<u32>, data: Vec<[u32; 256]>, }

impl Table {
    fn build(get: &HashMap<u32, [u32; 256]>) -> Table {
        let mut t = Table { pages: vec![0; 0x1100], data: vec![[0; 256]] };
        for (p, d) in get { t.pages[*p as usize] = t.data.len() as u32; t.data.push(*d); }
        t
    }
    pub fn get(&self, i: u32) -> u32 { match self.pages.get((i >> 8) as usize) { Some(&p) => self.data[p as usize][(i & 255) as usize], None => 0 } }
}
#[derive(Default)]
pub struct RefData { pub tables: HashMap<u32, Table> }

pub const NAME_LEN: u32 = 1000;
pub const NAME_WORD: u32 = 1001;
pub const VAL_BASE: u32 = 2000;

fn put(m: &mut HashMap<u32, HashMap<u32, [u32; 256]>>, t: u32, i: u32, v: u32) {
    m.entry(t).or_default().entry(i >> 8).or_insert([0; 256])[(i & 255) as usize] = v;
}
fn put_str(m: &mut HashMap<u32, HashMap<u32, [u32; 256]>>, lent: u32, i: u32, s: &str) {
    put(m, lent, i, s.len() as u32);
    for (k, ch) in s.as_bytes().chunks(4).enumerate() {
        let mut w = 0u32;
        for (j, b) in ch.iter().enumerate() { w |= (*b as u32) << (8 * j); }
        put(m, lent + 1 + k as u32, i, w);
    }
}

impl RefData {
    pub fn load(dir: &str, names: bool) -> Result<RefData, String> {
        let rd = |f: &str| std::fs::read_to_string(format!("{}/{}", dir, f)).map_err(|e| format!("{}/{}: {}", dir, f, e));
        let mut m: HashMap<u32, HashMap<u32, [u32; 256]>> = HashMap::new();
        let hx = |s: &str| u32::from_str_radix(s, 16).unwrap();
        let mut cur = 0;
        for l in rd("ucd.txt")?.lines().chain(rd("alph.txt")?.lines()) {
            let f: Vec<&str> = l.split(' ').collect();
            if f[0] == "T" { cur = f[1].parse().unwrap(); m.entry(cur).or_default(); }
            else { let v = hx(f[2]); for i in hx(f[0])..=hx(f[1]) { put(&mut m, cur, i, v); } }
        }
        // property value names: table VAL_BASE + 100*prop (+50 for the full name)
        let order = ["Gc", "Bc", "Age", "Blk", "Sc", "Gcb", "Wb", "Hst", "Insc", "Dt", "Incb", "Ccc"];
        for l in rd("values.txt")?.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            let p = order.iter().position(|x| *x == f[0]).unwrap() as u32;
            let i: u32 = f[1].parse().unwrap();
            put_str(&mut m, VAL_BASE + 100 * p, i, f[2]);
            put_str(&mut m, VAL_BASE + 100 * p + 50, i, f[3]);
        }
        if names {
            for l in rd("names.txt")?.lines() {
                if let Some(r) = l.strip_prefix('*') {
                    let f: Vec<&str> = r.splitn(3, ' ').collect();
                    for i in hx(f[0])..=hx(f[1]) { put_str(&mut m, NAME_LEN, i, &format!("{}{:04X}", f[2], i)); }
                } else {
                    let (a, n) = l.split_once(' ').unwrap();
                    put_str(&mut m, NAME_LEN, hx(a), n);
                }
            }
        }
        Ok(RefData { tables: m.iter().map(|(k, v)| (*k, Table::build(v))).collect() })
    }
    pub fn get(&self, t: u32, i: u32) -> u32 { self.tables.get(&t).map_or(0, |x| x.get(i)) }
}
