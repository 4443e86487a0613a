// Included into plusendi::types under --cfg plusendi_verif. Access paths only, no logic.
pub fn read_callsign(data: &[u8]) -> Option<(usize, &str)> {
    callsign(data).ok().map(|(rest, c)| (rest.len(), c.as_str()))
}
