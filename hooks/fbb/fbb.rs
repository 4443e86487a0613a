// Included into plusendi::fbb under --cfg plusendi_verif. Access paths only, no logic.
pub enum Out<T> {
    /// value, and the number of bytes left unread
    Yes(T, usize),
    Need(Option<usize>),
    No,
}

fn out<'a, O, T>(r: IResult<&'a [u8], O, VerboseError<&'a [u8]>>, f: impl FnOnce(O) -> T) -> Out<T> {
    match r {
        Ok((rest, o)) => Out::Yes(f(o), rest.len()),
        Err(nom::Err::Incomplete(nom::Needed::Size(n))) => Out::Need(Some(n.get())),
        Err(nom::Err::Incomplete(nom::Needed::Unknown)) => Out::Need(None),
        Err(_) => Out::No,
    }
}

pub struct Block {
    pub title: String,
    pub offset: u32,
    pub crc16: u16,
    pub uncompressed_size: u32,
    pub blocks: Vec<Vec<u8>>,
    pub decompressed: Option<Vec<u8>>,
}

pub fn block(data: &[u8], decompress: bool) -> Out<Block> {
    out(b2_message_block(data), |m| Block {
        title: m.title.to_owned(),
        offset: m.offset,
        crc16: m.crc16,
        uncompressed_size: m.uncompressed_size,
        blocks: m.blocks.iter().map(|b| b.to_vec()).collect(),
        decompressed: if decompress { m.decompress().ok() } else { None },
    })
}

pub struct Basic {
    pub message_type: MessageType,
    pub sender: String,
    pub mbo: String,
    pub recipient: String,
    pub message_id: String,
    pub message_size: u16,
}

pub fn basic(data: &[u8]) -> Out<Basic> {
    out(fbb_proposal(data), |p| Basic {
        message_type: p.message_type,
        sender: p.sender.as_str().to_owned(),
        mbo: p.addressee.mbo.as_str().to_owned(),
        recipient: p.addressee.recipient.as_str().to_owned(),
        message_id: p.message_id.as_str().to_owned(),
        message_size: p.message_size,
    })
}

pub struct Extended {
    pub message_id: String,
    pub compressed_message_size: u16,
    pub uncompressed_message_size: u16,
    /// sender, mbo, recipient
    pub extension: Option<(String, String, String)>,
}

pub fn extended(data: &[u8]) -> Out<Extended> {
    out(winlink_proposal(data), |p| Extended {
        message_id: p.message_id.as_str().to_owned(),
        compressed_message_size: p.compressed_message_size,
        uncompressed_message_size: p.uncompressed_message_size,
        extension: p.bqp_extension.map(|e| {
            (e.sender.as_str().to_owned(), e.addressee.mbo.as_str().to_owned(), e.addressee.recipient.as_str().to_owned())
        }),
    })
}

pub fn answers(count: usize, data: &[u8]) -> Out<Vec<MessageChoice>> {
    match count {
        0 => out(selection::<0>(data), |a| a.to_vec()),
        1 => out(selection::<1>(data), |a| a.to_vec()),
        2 => out(selection::<2>(data), |a| a.to_vec()),
        3 => out(selection::<3>(data), |a| a.to_vec()),
        4 => out(selection::<4>(data), |a| a.to_vec()),
        5 => out(selection::<5>(data), |a| a.to_vec()),
        _ => out(selection::<9>(data), |a| a.to_vec()),
    }
}
