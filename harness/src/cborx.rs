//! A minimal, independent CBOR reader: item boundaries and IPLD links.
use libipld::Cid;

pub struct P<'a> {
    pub b: &'a [u8],
    pub i: usize,
}
type R<T> = Result<T, String>;
impl<'a> P<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        P { b, i: 0 }
    }
    fn u8(&mut self) -> R<u8> {
        let x = *self.b.get(self.i).ok_or("truncated")?;
        self.i += 1;
        Ok(x)
    }
    fn take(&mut self, n: u64) -> R<&'a [u8]> {
        let n = usize::try_from(n).map_err(|_| "huge")?;
        let e = self.i.checked_add(n).ok_or("huge")?;
        let s = self.b.get(self.i..e).ok_or("truncated")?;
        self.i = e;
        Ok(s)
    }
    /// returns (major, minor, argument); argument None for indefinite length
    fn head(&mut self) -> R<(u8, u8, Option<u64>)> {
        let h = self.u8()?;
        let (ma, mi) = (h >> 5, h & 31);
        let arg = match mi {
            0..=23 => Some(mi as u64),
            24 => Some(self.u8()? as u64),
            25 => Some(u16::from_be_bytes(self.take(2)?.try_into().unwrap()) as u64),
            26 => Some(u32::from_be_bytes(self.take(4)?.try_into().unwrap()) as u64),
            27 => Some(u64::from_be_bytes(self.take(8)?.try_into().unwrap())),
            31 => None,
            _ => return Err("reserved".into()),
        };
        Ok((ma, mi, arg))
    }
    /// skip one item; every payload of a tag 42 is handed to `on_link` (None: not a byte string)
    pub fn item(&mut self, depth: u32, on_link: &mut dyn FnMut(Option<Vec<u8>>)) -> R<()> {
        if depth > 2000 {
            return Err("deep".into());
        }
        let (ma, mi, arg) = self.head()?;
        match (ma, arg) {
            (0, Some(_)) | (1, Some(_)) => {}
            (2, Some(n)) | (3, Some(n)) => {
                self.take(n)?;
            }
            (2, None) | (3, None) => {
                self.chunks(ma)?;
            }
            (4, Some(n)) => {
                for _ in 0..n {
                    self.item(depth + 1, on_link)?;
                }
            }
            (5, Some(n)) => {
                for _ in 0..n {
                    self.item(depth + 1, on_link)?;
                    self.item(depth + 1, on_link)?;
                }
            }
            (4, None) | (5, None) => {
                let mut n = 0;
                while *self.b.get(self.i).ok_or("truncated")? != 0xff {
                    self.item(depth + 1, on_link)?;
                    n += 1;
                }
                self.i += 1;
                if ma == 5 && n % 2 == 1 {
                    return Err("odd map".into());
                }
            }
            (6, Some(42)) => {
                let at = self.i;
                self.item(depth + 1, on_link)?;
                let mut q = P::new(&self.b[at..self.i]);
                on_link(q.bytes());
            }
            (6, Some(_)) => self.item(depth + 1, on_link)?,
            (7, Some(_)) if mi != 24 || self.b[self.i - 1] >= 32 => {}
            _ => return Err("bad item".into()),
        }
        Ok(())
    }
    fn chunks(&mut self, ma: u8) -> R<Vec<u8>> {
        let mut out = Vec::new();
        loop {
            if *self.b.get(self.i).ok_or("truncated")? == 0xff {
                self.i += 1;
                return Ok(out);
            }
            match self.head()? {
                (m, _, Some(n)) if m == ma => out.extend_from_slice(self.take(n)?),
                _ => return Err("bad chunk".into()),
            }
        }
    }
    fn bytes(&mut self) -> Option<Vec<u8>> {
        match self.head().ok()? {
            (2, _, Some(n)) => self.take(n).ok().map(|x| x.to_vec()),
            (2, _, None) => self.chunks(2).ok(),
            _ => None,
        }
    }
}

/// split a CBOR sequence into its items
pub fn split(b: &[u8]) -> R<Vec<Vec<u8>>> {
    let mut p = P::new(b);
    let mut r = Vec::new();
    while p.i < b.len() {
        let s = p.i;
        p.item(0, &mut |_| {})?;
        r.push(b[s..p.i].to_vec());
    }
    Ok(r)
}
/// exactly one well-formed item?
pub fn well_formed(b: &[u8]) -> bool {
    let mut p = P::new(b);
    p.item(0, &mut |_| {}).is_ok() && p.i == b.len()
}
/// all links in a CBOR sequence; Err for a malformed link
pub fn links(b: &[u8]) -> R<std::collections::BTreeSet<Cid>> {
    let mut p = P::new(b);
    let mut r = std::collections::BTreeSet::new();
    let mut bad = false;
    while p.i < b.len() {
        p.item(0, &mut |x| match x {
            Some(x) if x.first() == Some(&0) => match Cid::try_from(&x[1..]) {
                Ok(c) => {
                    r.insert(c);
                }
                Err(_) => bad = true,
            },
            _ => bad = true,
        })?;
    }
    if bad {
        return Err("malformed link".into());
    }
    Ok(r)
}
