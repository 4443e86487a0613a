// Included into plusendi::modem::vara under --cfg plusendi_verif. Access paths only, no logic.
pub fn read_line(data: &[u8]) -> Option<TncResponse> {
    nom::combinator::all_consuming(tnc_response)(data).ok().map(|(_, r)| r)
}

pub type Reply = tokio::sync::oneshot::Sender<CommandResult>;

/// the modem task itself, with a status channel nobody else holds
pub fn manage(rx: Receiver<(Command, Reply)>, stream: TcpStream) -> (impl Future<Output = color_eyre::Result<()>> + Send, Status) {
    let (tx, status) = channel();
    (manage_modem_thread(rx, tx, stream), Status(status))
}

pub struct Status(TncStatusReceiver);
impl Status {
    pub fn buffer(&self) -> usize { *self.0.buffer.borrow() }
    pub fn busy(&self) -> BusyState { *self.0.busy_state.borrow() }
    pub fn rig(&self) -> TransceiverCommand { *self.0.transceiver_control.borrow() }
    pub fn connection(&self) -> ConnectionStateOwned { self.0.connection.borrow().clone() }
    pub fn heartbeat(&self) -> Instant { *self.0.last_heartbeat.borrow() }
    pub fn registered(&self) -> Vec<String> {
        let mut v: Vec<String> = self.0.registered_calls.borrow().iter().map(|s| s.as_str().to_owned()).collect();
        v.sort();
        v
    }
}
