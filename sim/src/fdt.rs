//! A strict reader of flattened device trees (Devicetree Specification 0.4).

#[derive(Clone, Debug, Default)]
pub struct Node {
    pub name: String,
    pub path: String,
    pub props: Vec<(String, Vec<u8>)>,
    pub kids: Vec<Node>,
}

pub struct Fdt {
    pub total: usize,
    pub cpuid: u32,
    pub root: Node,
}

fn be(b: &[u8], at: usize) -> Result<u32, String> {
    b.get(at..at + 4).map(|s| u32::from_be_bytes(s.try_into().unwrap())).ok_or(format!("device tree ends at {at:#x}"))
}

pub fn parse(b: &[u8]) -> Result<Fdt, String> {
    if be(b, 0)? != 0xd00d_feed {
        return Err(format!("no device tree there (magic {:#x})", be(b, 0)?));
    }
    let h = |i: usize| be(b, 4 * i).map(|v| v as usize);
    let (total, st, strs, rsv) = (h(1)?, h(2)?, h(3)?, h(4)?);
    let (ver, last, cpuid, nstr, nst) = (h(5)?, h(6)?, h(7)?, h(8)?, h(9)?);
    if ver != 17 || last > 17 || last < 16 {
        return Err(format!("device tree version {ver}, compatible with {last}"));
    }
    if total > b.len() {
        return Err(format!("device tree of {total} bytes in a ROM that has {} left", b.len()));
    }
    let b = &b[..total];
    if rsv % 8 != 0 || st % 4 != 0 || rsv < 40 {
        return Err("device tree blocks are misaligned".into());
    }
    if nst % 4 != 0 || st + nst > total || strs + nstr > total {
        return Err("device tree blocks leave the blob".into());
    }
    let mut r = rsv;
    loop {
        let z = b.get(r..r + 16).ok_or("memory reservation block has no end")?;
        r += 16;
        if z.iter().all(|x| *x == 0) {
            break;
        }
        return Err("the device tree reserves memory".into());
    }
    let mut blocks = [(0, 40), (rsv, r), (st, st + nst), (strs, strs + nstr)];
    blocks.sort();
    if blocks.windows(2).any(|w| w[0].1 > w[1].0 && w[1].0 != w[1].1) {
        return Err("device tree blocks overlap".into());
    }
    let sb = &b[st..st + nst];
    let names = &b[strs..strs + nstr];
    let mut at = 0;
    let mut stack: Vec<Node> = vec![];
    let mut root = None;
    loop {
        let t = be(sb, at)?;
        at += 4;
        match t {
            1 => {
                if root.is_some() {
                    return Err("two root nodes".into());
                }
                let e = sb[at..].iter().position(|c| *c == 0).ok_or("unterminated node name")?;
                let name = String::from_utf8_lossy(&sb[at..at + e]).into_owned();
                at += (e + 4) & !3;
                let path = match stack.last() {
                    None if name.is_empty() => "/".to_string(),
                    None => return Err(format!("root node is called {name}")),
                    Some(p) => format!("{}/{name}", p.path.trim_end_matches('/')),
                };
                if !stack.is_empty() && name.is_empty() {
                    return Err("a node without a name".into());
                }
                stack.push(Node { name, path, ..Default::default() });
            }
            2 => {
                let n = stack.pop().ok_or("END_NODE without a node")?;
                match stack.last_mut() {
                    Some(p) => {
                        if p.kids.iter().any(|k| k.name == n.name) {
                            return Err(format!("two nodes {}", n.path));
                        }
                        p.kids.push(n)
                    }
                    None => root = Some(n),
                }
            }
            3 => {
                let (len, off) = (be(sb, at)? as usize, be(sb, at + 4)? as usize);
                at += 8;
                let v = sb.get(at..at + len).ok_or("property leaves the structure block")?.to_vec();
                at += (len + 3) & !3;
                let s = names.get(off..).ok_or("property name outside the strings block")?;
                let e = s.iter().position(|c| *c == 0).ok_or("unterminated property name")?;
                let name = String::from_utf8_lossy(&s[..e]).into_owned();
                let n = stack.last_mut().ok_or("property outside a node")?;
                if !n.kids.is_empty() {
                    return Err(format!("property {name} of {} behind its subnodes", n.path));
                }
                if name.is_empty() || n.props.iter().any(|p| p.0 == name) {
                    return Err(format!("property '{name}' of {} is there twice", n.path));
                }
                n.props.push((name, v));
            }
            4 => (),
            9 => break,
            _ => return Err(format!("token {t:#x} at {:#x} of the structure block", at - 4)),
        }
    }
    if at != nst {
        return Err(format!("structure block of {nst} bytes ends after {at}"));
    }
    if !stack.is_empty() {
        return Err("node without an end".into());
    }
    Ok(Fdt { total, cpuid: cpuid as u32, root: root.ok_or("no root node")? })
}

impl Node {
    pub fn prop(&self, n: &str) -> Option<&[u8]> {
        self.props.iter().find(|p| p.0 == n).map(|p| &p.1[..])
    }
    pub fn cells(&self, n: &str) -> Result<Vec<u32>, String> {
        let v = self.prop(n).ok_or(format!("{} has no {n}", self.path))?;
        if v.len() % 4 != 0 {
            return Err(format!("{n} of {} has {} bytes", self.path, v.len()));
        }
        Ok(v.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect())
    }
    pub fn cell(&self, n: &str) -> Result<u32, String> {
        match self.cells(n)?[..] {
            [x] => Ok(x),
            ref v => Err(format!("{n} of {} has {} cells", self.path, v.len())),
        }
    }
    pub fn strs(&self, n: &str) -> Result<Vec<String>, String> {
        let v = self.prop(n).ok_or(format!("{} has no {n}", self.path))?;
        if v.last() != Some(&0) {
            return Err(format!("{n} of {} is not a string", self.path));
        }
        Ok(v[..v.len() - 1].split(|c| *c == 0).map(|s| String::from_utf8_lossy(s).into_owned()).collect())
    }
    pub fn is(&self, n: &str, want: &str) -> bool {
        self.strs(n).map_or(false, |v| v.iter().any(|s| s == want))
    }
    pub fn all(&self) -> Vec<&Node> {
        let mut v = vec![self];
        for k in &self.kids {
            v.extend(k.all());
        }
        v
    }
    /// a number of one or two cells
    pub fn num(&self, n: &str) -> Result<u64, String> {
        match self.cells(n)?[..] {
            [x] => Ok(x as u64),
            [h, l] => Ok((h as u64) << 32 | l as u64),
            ref v => Err(format!("{n} of {} has {} cells", self.path, v.len())),
        }
    }
    /// `reg` as (address, size) pairs, with the cell counts of the parent
    pub fn reg(&self, parent: &Node) -> Result<Vec<(u64, u64)>, String> {
        let a = parent.cell("#address-cells")? as usize;
        let s = parent.cell("#size-cells")? as usize;
        let v = self.cells("reg")?;
        if a == 0 || a > 2 || s > 2 || v.is_empty() || v.len() % (a + s) != 0 {
            return Err(format!("reg of {} has {} cells", self.path, v.len()));
        }
        let join = |c: &[u32]| c.iter().fold(0u64, |x, y| x << 32 | *y as u64);
        Ok(v.chunks(a + s).map(|c| (join(&c[..a]), join(&c[a..]))).collect())
    }
}
