pub fn crc(parts: &[&[u8]]) -> u16 {
    let mut crc = Crc16::new();
    for p in parts { for &b in *p { crc.update(b); } }
    crc.finish()
}
