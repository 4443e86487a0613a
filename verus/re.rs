// ---- regular expressions: the textbook meaning. A match may use the text's ends; groups, greed and priority do not
// matter for whether there is a match.
pub enum Re {
    Empty,
    Class(spec_fn(char) -> bool),
    Start,
    End,
    Cat(Box<Re>, Box<Re>),
    Alt(Box<Re>, Box<Re>),
    Rep(Box<Re>, nat, Option<nat>),
}
/// from where to where something matches in a given text
pub type Span = spec_fn(int, int) -> bool;
pub open spec fn joined(a: Span, b: Span, i: int, k: int, j: int) -> bool { i <= k <= j && a(i, k) && b(k, j) }
pub open spec fn cat(a: Span, b: Span) -> Span { |i: int, j: int| exists|k: int| #[trigger] joined(a, b, i, k, j) }
pub open spec fn power(a: Span, n: nat) -> Span
    decreases n
{
    if n == 0 { |i: int, j: int| i == j } else { cat(a, power(a, (n - 1) as nat)) }
}
pub open spec fn repeated(a: Span, min: nat, max: Option<nat>, n: nat, i: int, j: int) -> bool { min <= n && (max is Some ==> n <= max->0) && power(a, n)(i, j) }
/// re matches the characters i.. <j of s
pub open spec fn spans(re: Re, s: Seq<char>) -> Span
    decreases re
{
    match re {
        Re::Empty => |i: int, j: int| i == j,
        Re::Class(f) => |i: int, j: int| j == i + 1 && 0 <= i < s.len() && f(s[i]),
        Re::Start => |i: int, j: int| i == 0 && j == 0,
        Re::End => |i: int, j: int| i == s.len() && j == s.len(),
        Re::Cat(a, b) => cat(spans(*a, s), spans(*b, s)),
        Re::Alt(a, b) => {
            let (x, y) = (spans(*a, s), spans(*b, s));
            |i: int, j: int| x(i, j) || y(i, j)
        },
        Re::Rep(a, min, max) => {
            let x = spans(*a, s);
            |i: int, j: int| exists|n: nat| #[trigger] repeated(x, min, max, n, i, j)
        },
    }
}
pub open spec fn within(a: Span, s: Seq<char>, i: int, j: int) -> bool { 0 <= i <= j <= s.len() && a(i, j) }
/// there is a match somewhere
pub open spec fn found(re: Re, s: Seq<char>) -> bool {
    exists|i: int, j: int| #[trigger] within(spans(re, s), s, i, j)
}
pub open spec fn all(s: Seq<char>, f: spec_fn(char) -> bool, i: int, j: int) -> bool {
    forall|k: int| i <= k < j ==> f(#[trigger] s[k])
}
proof fn lemma_power(f: spec_fn(char) -> bool, n: nat, s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures power(spans(Re::Class(f), s), n)(i, j) <==> (j == i + n && all(s, f, i, j)),
    decreases n
{
    let a = spans(Re::Class(f), s);
    if n > 0 {
        let b = power(a, (n - 1) as nat);
        if i < j { lemma_power(f, (n - 1) as nat, s, i + 1, j); }
        if power(a, n)(i, j) {
            let k = choose|k: int| #[trigger] joined(a, b, i, k, j);
            assert(k == i + 1);
            assert forall|x: int| i <= x < j implies f(#[trigger] s[x]) by {}
        }
        if j == i + n && all(s, f, i, j) {
            assert(f(s[i]));
            assert(joined(a, b, i, i + 1, j));
        }
    }
}
/// repetitions of one character of a class: a run of them
proof fn lemma_run(f: spec_fn(char) -> bool, min: nat, max: Option<nat>, s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures spans(Re::Rep(Box::new(Re::Class(f)), min, max), s)(i, j) <==> (min <= j - i && (max is Some ==> j - i <= max->0) && all(s, f, i, j)),
{
    let a = spans(Re::Class(f), s);
    let re = Re::Rep(Box::new(Re::Class(f)), min, max);
    assert(spans(re, s) == (|i: int, j: int| exists|n: nat| #[trigger] repeated(a, min, max, n, i, j)));
    if spans(re, s)(i, j) {
        let n = choose|n: nat| #[trigger] repeated(a, min, max, n, i, j);
        lemma_power(f, n, s, i, j);
    }
    if min <= j - i && (max is Some ==> j - i <= max->0) && all(s, f, i, j) {
        lemma_power(f, (j - i) as nat, s, i, j);
        assert(repeated(a, min, max, (j - i) as nat, i, j));
    }
}
