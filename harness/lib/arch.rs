// Archives built by hand (the stand-ins for crc32fast and flate2 make checksums 0 and DEFLATE the identity).
pub struct Member {
    pub name: Vec<u8>,
    pub attr: u32,   // external attributes
    pub system: u8,  // version made by, high byte
    pub flags: u16,  // general purpose flags
    pub data: Vec<u8>,
}
fn p16(o: &mut Vec<u8>, v: u16) {
    o.extend_from_slice(&v.to_le_bytes())
}
fn p32(o: &mut Vec<u8>, v: u32) {
    o.extend_from_slice(&v.to_le_bytes())
}
pub fn zip(ms: &[Member]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut cd = Vec::new();
    for m in ms {
        let at = o.len() as u32;
        o.extend_from_slice(b"PK\x03\x04");
        p16(&mut o, 20);
        p16(&mut o, m.flags);
        for _ in 0..3 {
            p16(&mut o, 0) // stored, time, date
        }
        p32(&mut o, 0);
        p32(&mut o, m.data.len() as u32);
        p32(&mut o, m.data.len() as u32);
        p16(&mut o, m.name.len() as u16);
        p16(&mut o, 0);
        o.extend_from_slice(&m.name);
        o.extend_from_slice(&m.data);
        cd.extend_from_slice(b"PK\x01\x02");
        cd.push(20);
        cd.push(m.system);
        p16(&mut cd, 20);
        p16(&mut cd, m.flags);
        for _ in 0..3 {
            p16(&mut cd, 0)
        }
        p32(&mut cd, 0);
        p32(&mut cd, m.data.len() as u32);
        p32(&mut cd, m.data.len() as u32);
        p16(&mut cd, m.name.len() as u16);
        for _ in 0..4 {
            p16(&mut cd, 0) // extra, comment, disk, internal attributes
        }
        p32(&mut cd, m.attr);
        p32(&mut cd, at);
        cd.extend_from_slice(&m.name);
    }
    let at = o.len() as u32;
    o.extend_from_slice(&cd);
    o.extend_from_slice(b"PK\x05\x06");
    p32(&mut o, 0);
    p16(&mut o, ms.len() as u16);
    p16(&mut o, ms.len() as u16);
    p32(&mut o, cd.len() as u32);
    p32(&mut o, at);
    p16(&mut o, 0);
    o
}
pub struct Entry {
    pub name: Vec<u8>,
    pub kind: u8,
    pub mode: u32, // only the low 9 bits
    pub link: Vec<u8>,
    pub gnu: bool,
    pub data: Vec<u8>,
}
pub fn tar(es: &[Entry]) -> Vec<u8> {
    let mut o = Vec::new();
    for e in es {
        let mut h = [0u8; 512];
        h[..e.name.len()].copy_from_slice(&e.name);
        for i in 0..4 {
            h[100 + i] = b'0'
        }
        for i in 0..3 {
            h[104 + i] = b'0' + ((e.mode >> (6 - 3 * i)) & 7) as u8;
        }
        h[108..115].copy_from_slice(b"0000000");
        h[116..123].copy_from_slice(b"0000000");
        h[124..135].copy_from_slice(format!("{:011o}", e.data.len()).as_bytes());
        h[136..147].copy_from_slice(b"00000000000");
        h[156] = e.kind;
        h[157..157 + e.link.len()].copy_from_slice(&e.link);
        if e.gnu {
            h[257..265].copy_from_slice(b"ustar  \0");
        } else {
            h[257..265].copy_from_slice(b"ustar\x0000");
        }
        if e.kind == b'S' {
            // a sparse map of one block: all of it
            let n = format!("{:011o}", e.data.len());
            h[386..397].copy_from_slice(b"00000000000");
            h[398..409].copy_from_slice(n.as_bytes());
            h[483..494].copy_from_slice(n.as_bytes());
        }
        h[148..156].copy_from_slice(b"        ");
        let mut s = 0u32;
        for b in h.iter() {
            s += *b as u32;
        }
        for i in 0..6 {
            h[148 + i] = b'0' + ((s >> (15 - 3 * i)) & 7) as u8;
        }
        h[154] = 0;
        o.extend_from_slice(&h);
        o.extend_from_slice(&e.data);
        while o.len() % 512 != 0 {
            o.push(0);
        }
    }
    o.extend_from_slice(&[0; 1024]);
    o
}
pub fn gz(parts: &[&[u8]]) -> Vec<u8> {
    let mut o = Vec::new();
    for p in parts {
        o.extend_from_slice(&[0x1f, 0x8b]);
        p16(&mut o, p.len() as u16);
        o.extend_from_slice(p);
    }
    o
}
