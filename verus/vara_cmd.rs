// ---- C13: commands as lines ----
/// the text of an identifier (braid's Display writes it as it is)
pub uninterp spec fn shown(s: &StationId) -> Seq<char>;
impl StationId {
    #[verifier::external_body]
    fn fmt(&self, f: &mut Text) -> (ret: Result<(), FmtError>) ensures ret is Ok, final(f)@ == old(f)@ + shown(self) { unimplemented!() }
}
type Word = Seq<char>;
pub enum Path { Direct, One(Word), Two(Word, Word) }
/// what a command is, apart from how it is stored
pub enum Cmd { Listen(ListenMode), Connect(Word, Word, Path), Disconnect, Abort, SetCall(Seq<Word>), SetCompression(CompressionMode), SetBandwidth(BandwidthMode) }
impl ConnectPath {
    pub open spec fn path(&self) -> Path {
        match self {
            ConnectPath::Direct => Path::Direct,
            ConnectPath::OneHop { digipeater } => Path::One(shown(digipeater)),
            ConnectPath::TwoHops { first, second } => Path::Two(shown(first), shown(second)),
        }
    }
}
pub open spec fn names_of(v: Seq<StationId>) -> Seq<Word> { Seq::new(v.len(), |i: int| shown(&v[i])) }
impl MyCallSigns {
    pub open spec fn calls(&self) -> Seq<Word> { seq![shown(&self.0)] + names_of(self.1@) }
}
impl Command {
    pub open spec fn cmd(&self) -> Cmd {
        match self {
            Command::Listen(m) => Cmd::Listen(*m),
            Command::Connect(c) => Cmd::Connect(shown(&c.origin), shown(&c.target), c.path.path()),
            Command::Disconnect => Cmd::Disconnect,
            Command::Abort => Cmd::Abort,
            Command::SetCall(c) => Cmd::SetCall(c.calls()),
            Command::SetCompression(m) => Cmd::SetCompression(*m),
            Command::SetBandwidth(m) => Cmd::SetBandwidth(*m),
        }
    }
}
pub open spec fn listen_word(m: ListenMode) -> Word { match m { ListenMode::Disable => seq!['O', 'F', 'F'], ListenMode::CQ => seq!['C', 'Q'], ListenMode::Enable => seq!['O', 'N'] } }
pub open spec fn compression_word(m: CompressionMode) -> Word {
    match m { CompressionMode::Off => seq!['O', 'F', 'F'], CompressionMode::Text => seq!['T', 'E', 'X', 'T'], CompressionMode::Files => seq!['F', 'I', 'L', 'E', 'S'] }
}
pub open spec fn bandwidth_word(m: BandwidthMode) -> Word {
    match m { BandwidthMode::Narrow => seq!['5', '0', '0'], BandwidthMode::Wide => seq!['2', '3', '0', '0'], BandwidthMode::Tactical => seq!['2', '7', '5', '0'] }
}
pub open spec fn via_words(p: Path) -> Seq<Word> {
    match p { Path::Direct => Seq::<Word>::empty(), Path::One(a) => seq![seq!['v', 'i', 'a'], a], Path::Two(a, b) => seq![seq!['v', 'i', 'a'], a, b] }
}
/// the words of a command, in order
pub open spec fn words_of(c: Cmd) -> Seq<Word> {
    match c {
        Cmd::Listen(m) => seq![seq!['L', 'I', 'S', 'T', 'E', 'N'], listen_word(m)],
        Cmd::Connect(a, b, p) => seq![seq!['C', 'O', 'N', 'N', 'E', 'C', 'T'], a, b] + via_words(p),
        Cmd::Disconnect => seq![seq!['D', 'I', 'S', 'C', 'O', 'N', 'N', 'E', 'C', 'T']],
        Cmd::Abort => seq![seq!['A', 'B', 'O', 'R', 'T']],
        Cmd::SetCall(v) => seq![seq!['M', 'Y', 'C', 'A', 'L', 'L']] + v,
        Cmd::SetCompression(m) => seq![seq!['C', 'O', 'M', 'P', 'R', 'E', 'S', 'S', 'I', 'O', 'N'], compression_word(m)],
        Cmd::SetBandwidth(m) => seq![seq!['B', 'W'] + bandwidth_word(m)],
    }
}
/// each word after a space
pub open spec fn spaced(w: Seq<Word>) -> Seq<char>
    decreases w.len()
{
    if w.len() == 0 { Seq::<char>::empty() } else { seq![' '] + w[0] + spaced(w.drop_first()) }
}
/// the line: the words with single spaces between them
pub open spec fn line_of(c: Cmd) -> Seq<char> { spaced(words_of(c)).skip(1) }
proof fn lemma_literals()
    ensures
        "OFF"@ == seq!['O', 'F', 'F'], "ON"@ == seq!['O', 'N'], "CQ"@ == seq!['C', 'Q'], "TEXT"@ == seq!['T', 'E', 'X', 'T'], "FILES"@ == seq!['F', 'I', 'L', 'E', 'S'],
        "500"@ == seq!['5', '0', '0'], "2300"@ == seq!['2', '3', '0', '0'], "2750"@ == seq!['2', '7', '5', '0'],
        " "@ == seq![' '], " via "@ == seq![' ', 'v', 'i', 'a', ' '], "BW"@ == seq!['B', 'W'],
        "LISTEN "@ == seq!['L', 'I', 'S', 'T', 'E', 'N', ' '], "CONNECT "@ == seq!['C', 'O', 'N', 'N', 'E', 'C', 'T', ' '],
        "DISCONNECT"@ == seq!['D', 'I', 'S', 'C', 'O', 'N', 'N', 'E', 'C', 'T'], "ABORT"@ == seq!['A', 'B', 'O', 'R', 'T'],
        "MYCALL "@ == seq!['M', 'Y', 'C', 'A', 'L', 'L', ' '], "COMPRESSION "@ == seq!['C', 'O', 'M', 'P', 'R', 'E', 'S', 'S', 'I', 'O', 'N', ' '],
{
    reveal_strlit("OFF"); reveal_strlit("ON"); reveal_strlit("CQ"); reveal_strlit("TEXT"); reveal_strlit("FILES");
    reveal_strlit("500"); reveal_strlit("2300"); reveal_strlit("2750"); reveal_strlit(" "); reveal_strlit(" via "); reveal_strlit("BW");
    reveal_strlit("LISTEN "); reveal_strlit("CONNECT "); reveal_strlit("DISCONNECT"); reveal_strlit("ABORT"); reveal_strlit("MYCALL "); reveal_strlit("COMPRESSION ");
    assert("OFF"@ =~= seq!['O', 'F', 'F']); assert("ON"@ =~= seq!['O', 'N']); assert("CQ"@ =~= seq!['C', 'Q']); assert("TEXT"@ =~= seq!['T', 'E', 'X', 'T']); assert("FILES"@ =~= seq!['F', 'I', 'L', 'E', 'S']);
    assert("500"@ =~= seq!['5', '0', '0']); assert("2300"@ =~= seq!['2', '3', '0', '0']); assert("2750"@ =~= seq!['2', '7', '5', '0']);
    assert(" "@ =~= seq![' ']); assert(" via "@ =~= seq![' ', 'v', 'i', 'a', ' ']); assert("BW"@ =~= seq!['B', 'W']);
    assert("LISTEN "@ =~= seq!['L', 'I', 'S', 'T', 'E', 'N', ' ']); assert("CONNECT "@ =~= seq!['C', 'O', 'N', 'N', 'E', 'C', 'T', ' ']);
    assert("DISCONNECT"@ =~= seq!['D', 'I', 'S', 'C', 'O', 'N', 'N', 'E', 'C', 'T']); assert("ABORT"@ =~= seq!['A', 'B', 'O', 'R', 'T']);
    assert("MYCALL "@ =~= seq!['M', 'Y', 'C', 'A', 'L', 'L', ' ']); assert("COMPRESSION "@ =~= seq!['C', 'O', 'M', 'P', 'R', 'E', 'S', 'S', 'I', 'O', 'N', ' ']);
}
proof fn lemma_spaced_first(w: Word, t: Seq<Word>)
    ensures spaced(seq![w] + t) == seq![' '] + w + spaced(t), spaced(Seq::<Word>::empty()) == Seq::<char>::empty()
{
    assert((seq![w] + t).drop_first() =~= t);
}
proof fn lemma_spaced_last(t: Seq<Word>, w: Word)
    ensures spaced(t.push(w)) == spaced(t) + seq![' '] + w
    decreases t.len()
{
    if t.len() == 0 {
        assert(t.push(w).drop_first() =~= Seq::<Word>::empty());
        assert(t.push(w)[0] == w);
        assert(spaced(Seq::<Word>::empty()) =~= Seq::<char>::empty());
        assert(spaced(t) =~= Seq::<char>::empty());
        assert(spaced(t.push(w)) == seq![' '] + w + spaced(Seq::<Word>::empty()));
        assert(spaced(t.push(w)) =~= spaced(t) + seq![' '] + w);
    } else {
        assert(t.push(w).drop_first() =~= t.drop_first().push(w));
        assert(t.push(w)[0] == t[0]);
        lemma_spaced_last(t.drop_first(), w);
        assert(spaced(t.push(w)) == seq![' '] + t[0] + (spaced(t.drop_first()) + seq![' '] + w));
        assert(spaced(t) == seq![' '] + t[0] + spaced(t.drop_first()));
        assert(spaced(t.push(w)) =~= spaced(t) + seq![' '] + w);
    }
}
/// the words of a path, one after the other
proof fn lemma_via(p: Path)
    ensures
        p is Direct ==> spaced(via_words(p)) == Seq::<char>::empty(),
        p matches Path::One(a) ==> spaced(via_words(p)) == seq![' ', 'v', 'i', 'a', ' '] + a,
        p matches Path::Two(a, b) ==> spaced(via_words(p)) == seq![' ', 'v', 'i', 'a', ' '] + a + seq![' '] + b,
{
    let (e, v) = (Seq::<Word>::empty(), seq!['v', 'i', 'a']);
    match p {
        Path::Direct => {}
        Path::One(a) => {
            assert(via_words(p) =~= e.push(v).push(a));
            lemma_spaced_last(e.push(v), a); lemma_spaced_last(e, v);
            assert(spaced(via_words(p)) =~= seq![' ', 'v', 'i', 'a', ' '] + a);
        }
        Path::Two(a, b) => {
            assert(via_words(p) =~= e.push(v).push(a).push(b));
            lemma_spaced_last(e.push(v).push(a), b); lemma_spaced_last(e.push(v), a); lemma_spaced_last(e, v);
            assert(spaced(via_words(p)) =~= seq![' ', 'v', 'i', 'a', ' '] + a + seq![' '] + b);
        }
    }
}
/// what follows the first word, with its space
proof fn lemma_line_of(c: Cmd)
    ensures
        c matches Cmd::Listen(m) ==> line_of(c) == seq!['L', 'I', 'S', 'T', 'E', 'N', ' '] + listen_word(m),
        c matches Cmd::Connect(a, b, p) ==> line_of(c) == seq!['C', 'O', 'N', 'N', 'E', 'C', 'T', ' '] + (a + seq![' '] + b + spaced(via_words(p))),
        c is Disconnect ==> line_of(c) == seq!['D', 'I', 'S', 'C', 'O', 'N', 'N', 'E', 'C', 'T'],
        c is Abort ==> line_of(c) == seq!['A', 'B', 'O', 'R', 'T'],
        c matches Cmd::SetCall(v) ==> v.len() > 0 ==> line_of(c) == seq!['M', 'Y', 'C', 'A', 'L', 'L', ' '] + (v[0] + spaced(v.drop_first())),
        c matches Cmd::SetCompression(m) ==> line_of(c) == seq!['C', 'O', 'M', 'P', 'R', 'E', 'S', 'S', 'I', 'O', 'N', ' '] + compression_word(m),
        c matches Cmd::SetBandwidth(m) ==> line_of(c) == seq!['B', 'W'] + bandwidth_word(m),
{
    let w = words_of(c);
    let e = Seq::<Word>::empty();
    lemma_spaced_first(w[0], w.drop_first());
    assert(seq![w[0]] + w.drop_first() =~= w);
    match c {
        Cmd::Listen(m) => { assert(w.drop_first() =~= seq![listen_word(m)] + e); lemma_spaced_first(listen_word(m), e); assert(line_of(c) =~= seq!['L', 'I', 'S', 'T', 'E', 'N', ' '] + listen_word(m)); }
        Cmd::Connect(a, b, p) => {
            assert(w.drop_first() =~= seq![a] + (seq![b] + via_words(p)));
            lemma_spaced_first(a, seq![b] + via_words(p));
            lemma_spaced_first(b, via_words(p));
            assert(line_of(c) =~= seq!['C', 'O', 'N', 'N', 'E', 'C', 'T', ' '] + (a + seq![' '] + b + spaced(via_words(p))));
        }
        Cmd::Disconnect => { assert(w.drop_first() =~= e); assert(line_of(c) =~= w[0]); }
        Cmd::Abort => { assert(w.drop_first() =~= e); assert(line_of(c) =~= w[0]); }
        Cmd::SetCall(v) => {
            assert(w.drop_first() =~= v);
            if v.len() > 0 {
                assert(line_of(c) =~= seq!['M', 'Y', 'C', 'A', 'L', 'L', ' '] + (v[0] + spaced(v.drop_first())));
            }
        }
        Cmd::SetCompression(m) => {
            assert(w.drop_first() =~= seq![compression_word(m)] + e); lemma_spaced_first(compression_word(m), e);
            assert(line_of(c) =~= seq!['C', 'O', 'M', 'P', 'R', 'E', 'S', 'S', 'I', 'O', 'N', ' '] + compression_word(m));
        }
        Cmd::SetBandwidth(m) => { assert(w.drop_first() =~= e); assert(line_of(c) =~= w[0]); }
    }
}
