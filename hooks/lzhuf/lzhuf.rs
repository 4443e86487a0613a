// Included into plusendi::lzhuf under --cfg plusendi_verif. Access paths only, no logic.
pub fn encode(input: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut encoder = Encoder::new(&mut out);
    encoder.encode(input.iter().copied());
    encoder.finish();
    out
}

pub fn decode(input: &[u8], n: usize) -> Option<Vec<u8>> {
    let mut buffer = vec![0u8; n];
    let mut decoder = Decoder::new(input.iter().copied());
    match decoder.decode(&mut buffer) {
        Ok(()) => Some(buffer),
        Err(_) => None,
    }
}

pub struct Table(LzHufState);
impl Table {
    pub fn new() -> Self {
        Table(LzHufState::new())
    }
    pub fn update(&mut self, symbol: u16) {
        self.0.update(symbol)
    }
    pub fn weights(&self) -> &[u16] {
        &self.0.frequency_table
    }
    pub fn children(&self) -> &[u16] {
        &self.0.children
    }
    pub fn parents(&self) -> &[u16] {
        &self.0.parents
    }
}
