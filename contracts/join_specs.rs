// What the join strings mean: the grammar the documentation describes, as a function of the text.
verus!{
/// a piece of a connection: a pipe, or a component with the ports written next to it
pub ghost enum Tok {
    Pipe(Breakable),
    Start(ComponentType, Seq<char>, OutputPort, Option<Seq<char>>),
    Middle(ComponentType, Seq<char>, InputPort, OutputPort, Option<Seq<char>>),
    End(ComponentType, Seq<char>, InputPort, Option<Seq<char>>),
}
pub open spec fn otext(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn ctok(c: Connection) -> Tok {
    match c {
        Connection::StartConnection { component_type, component_name, output_port, connection_set } => Tok::Start(component_type, component_name@, output_port, otext(connection_set)),
        Connection::MiddleConnection { component_type, component_name, input_port, output_port, connection_set } => Tok::Middle(component_type, component_name@, input_port, output_port, otext(connection_set)),
        Connection::EndConnection { component_type, component_name, input_port, connection_set } => Tok::End(component_type, component_name@, input_port, otext(connection_set)),
    }
}
pub open spec fn tok(p: ParserConnection) -> Tok { match p { ParserConnection::Connection(c) => ctok(c), ParserConnection::Pipe(b) => Tok::Pipe(b) } }
pub open spec fn toks(v: Seq<ParserConnection>) -> Seq<Tok> { v.map_values(|p: ParserConnection| tok(p)) }
pub open spec fn flat(v: Seq<Vec<ParserConnection>>) -> Seq<Tok> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + toks(v.last()@) } }

// ---- characters
pub open spec fn is_word(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '_' }
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn word() -> spec_fn(char) -> bool { |c: char| is_word(c) }
pub open spec fn digit() -> spec_fn(char) -> bool { |c: char| is_digit(c) }
pub open spec fn blank() -> spec_fn(char) -> bool { |c: char| c == ' ' }
/// how many characters at the front are of a kind
pub open spec fn run(s: Seq<char>, f: spec_fn(char) -> bool) -> int decreases s.len() { if s.len() == 0 || !f(s[0]) { 0 } else { 1 + run(s.skip(1), f) } }
/// what follows a literal at the front
pub open spec fn lit(s: Seq<char>, l: Seq<char>) -> Option<Seq<char>> { if l.len() <= s.len() && s.take(l.len() as int) == l { Some(s.skip(l.len() as int)) } else { None } }

// ---- the grammar: each rule gives what is left of the text and what it read, or does not match
pub open spec fn g_name(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { let k = run(s, word()); if k == 0 { None } else { Some((s.skip(k), s.take(k))) } }
pub open spec fn signed(s: Seq<char>) -> Seq<char> { match lit(s, "-"@) { Some(r) => r, None => s } }
pub open spec fn g_pref(s: Seq<char>) -> Option<(Seq<char>, isize)> { let a = signed(s); let r = a.skip(run(a, digit())); Some((r, match as_isize(s.take(s.len() - r.len())) { Some(n) => n, None => 0 })) }
pub open spec fn g_in(s: Seq<char>) -> Option<(Seq<char>, InputPort)> {
    match lit(s, "["@) { None => None, Some(a) => match g_pref(a) { None => None, Some((b, n)) => match lit(b, "]"@) { None => None, Some(c) => Some((c, InputPort { breakable: Breakable::Terminate, priority: n })) } } }
}
pub open spec fn g_type(s: Seq<char>) -> Option<(Seq<char>, ComponentType)> {
    if lit(s, "faucet"@) is Some { Some((lit(s, "faucet"@)->0, ComponentType::Faucet)) }
    else if lit(s, "drain"@) is Some { Some((lit(s, "drain"@)->0, ComponentType::Drain)) }
    else if lit(s, "regulator"@) is Some { Some((lit(s, "regulator"@)->0, ComponentType::Regulator)) }
    else if lit(s, "junction"@) is Some { Some((lit(s, "junction"@)->0, ComponentType::Junction)) }
    else if lit(s, "buffer"@) is Some { Some((lit(s, "buffer"@)->0, ComponentType::Buffer)) }
    else if lit(s, "launch"@) is Some { Some((lit(s, "launch"@)->0, ComponentType::Launch)) }
    else if lit(s, "f"@) is Some { Some((lit(s, "f"@)->0, ComponentType::Faucet)) }
    else if lit(s, "d"@) is Some { Some((lit(s, "d"@)->0, ComponentType::Drain)) }
    else if lit(s, "r"@) is Some { Some((lit(s, "r"@)->0, ComponentType::Regulator)) }
    else if lit(s, "j"@) is Some { Some((lit(s, "j"@)->0, ComponentType::Junction)) }
    else if lit(s, "b"@) is Some { Some((lit(s, "b"@)->0, ComponentType::Buffer)) }
    else if lit(s, "l"@) is Some { Some((lit(s, "l"@)->0, ComponentType::Launch)) }
    else { None }
}
pub open spec fn g_sep(s: Seq<char>) -> Option<(Seq<char>, bool)> { match lit(s, ":"@) { None => None, Some(a) => Some((a, true)) } }
pub open spec fn g_identifier(s: Seq<char>) -> Option<(Seq<char>, (ComponentType, Seq<char>))> {
    match g_type(s) { None => None, Some((a, t)) => match g_sep(a) { None => None, Some((b, _)) => match g_name(b) { None => None, Some((c, n)) => Some((c, (t, n))) } } }
}
pub open spec fn g_out(s: Seq<char>) -> Option<(Seq<char>, OutputPort)> {
    match lit(s, "["@) { None => None, Some(a) =>
        if a.len() == 0 { None } else if a[0] != 'E' && a[0] != 'O' && a[0] != 'X' { None }
        else { match lit(a.skip(1), "]"@) { None => None, Some(b) => Some((b, if a[0] == 'X' { OutputPort::Exit } else if a[0] == 'E' { OutputPort::Err } else { OutputPort::Out })) } } }
}
pub open spec fn g_code(s: Seq<char>) -> Option<(Seq<char>, Breakable)> {
    if lit(s, "T"@) is Some { Some((lit(s, "T"@)->0, Breakable::Terminate)) } else if lit(s, "C"@) is Some { Some((lit(s, "C"@)->0, Breakable::Consume)) } else if lit(s, "F"@) is Some { Some((lit(s, "F"@)->0, Breakable::Finish)) } else { None }
}
pub open spec fn g_typed(s: Seq<char>) -> Option<(Seq<char>, Breakable)> {
    match lit(s, "|"@) { None => None, Some(a) => match g_code(a) { None => None, Some((b, k)) => match lit(b, "|"@) { None => None, Some(c) => Some((c, k)) } } }
}
pub open spec fn g_plain(s: Seq<char>) -> Option<(Seq<char>, Breakable)> { match lit(s, "|"@) { None => None, Some(a) => Some((a, Breakable::Terminate)) } }
pub open spec fn g_bar(s: Seq<char>) -> Option<(Seq<char>, Breakable)> { match g_typed(s) { Some(x) => Some(x), None => g_plain(s) } }
pub open spec fn g_pipe(s: Seq<char>) -> Option<(Seq<char>, Tok)> { match g_bar(s.skip(run(s, blank()))) { None => None, Some((a, b)) => Some((a.skip(run(a, blank())), Tok::Pipe(b))) } }
pub open spec fn unset() -> InputPort { InputPort { breakable: Breakable::Terminate, priority: 0 } }
pub open spec fn g_middle_full(s: Seq<char>) -> Option<(Seq<char>, Tok)> { match g_in(s) { None => None, Some((a, l)) => match g_identifier(a) { None => None, Some((b, i)) => match g_out(b) { None => None, Some((c, o)) => Some((c, Tok::Middle(i.0, i.1, l, o, None))) } } } }
pub open spec fn g_middle_in(s: Seq<char>) -> Option<(Seq<char>, Tok)> { match g_in(s) { None => None, Some((a, l)) => match g_identifier(a) { None => None, Some((b, i)) => Some((b, Tok::Middle(i.0, i.1, l, OutputPort::Out, None))) } } }
pub open spec fn g_middle_out(s: Seq<char>) -> Option<(Seq<char>, Tok)> { match g_identifier(s) { None => None, Some((b, i)) => match g_out(b) { None => None, Some((c, o)) => Some((c, Tok::Middle(i.0, i.1, unset(), o, None))) } } }
pub open spec fn g_middle_quick(s: Seq<char>) -> Option<(Seq<char>, Tok)> { match g_identifier(s) { None => None, Some((b, i)) => Some((b, Tok::Middle(i.0, i.1, unset(), OutputPort::Out, None))) } }
pub open spec fn g_middle(s: Seq<char>) -> Option<(Seq<char>, Tok)> { if g_middle_full(s) is Some { g_middle_full(s) } else if g_middle_out(s) is Some { g_middle_out(s) } else if g_middle_in(s) is Some { g_middle_in(s) } else { g_middle_quick(s) } }
pub open spec fn g_start_full(s: Seq<char>) -> Option<(Seq<char>, Tok)> { match g_identifier(s) { None => None, Some((b, i)) => match g_out(b) { None => None, Some((c, o)) => Some((c, Tok::Start(i.0, i.1, o, None))) } } }
pub open spec fn g_start_quick(s: Seq<char>) -> Option<(Seq<char>, Tok)> { match g_identifier(s) { None => None, Some((b, i)) => Some((b, Tok::Start(i.0, i.1, OutputPort::Out, None))) } }
pub open spec fn g_start(s: Seq<char>) -> Option<(Seq<char>, Tok)> { if g_start_full(s) is Some { g_start_full(s) } else { g_start_quick(s) } }
pub open spec fn g_end_full(s: Seq<char>) -> Option<(Seq<char>, Tok)> { match g_in(s) { None => None, Some((a, l)) => match g_identifier(a) { None => None, Some((b, i)) => Some((b, Tok::End(i.0, i.1, l, None))) } } }
pub open spec fn g_end_quick(s: Seq<char>) -> Option<(Seq<char>, Tok)> { match g_identifier(s) { None => None, Some((b, i)) => Some((b, Tok::End(i.0, i.1, unset(), None))) } }
pub open spec fn g_end(s: Seq<char>) -> Option<(Seq<char>, Tok)> { if g_end_full(s) is Some { g_end_full(s) } else { g_end_quick(s) } }
pub open spec fn g_line(s: Seq<char>) -> Option<(Seq<char>, Seq<Tok>)> { match g_middle(s) { None => None, Some((a, m)) => match g_pipe(a) { None => None, Some((b, p)) => Some((b, seq![m, p])) } } }
/// as many middles with their pipes as there are
pub open spec fn g_lines(s: Seq<char>) -> (Seq<char>, Seq<Tok>) decreases s.len() {
    match g_line(s) { Some((a, t)) => if a.len() < s.len() { (g_lines(a).0, t + g_lines(a).1) } else { (s, Seq::empty()) }, None => (s, Seq::empty()) }
}
pub open spec fn g_has(s: Seq<char>) -> Option<(Seq<char>, Seq<Tok>)> {
    match g_start(s) { None => None, Some((a, b)) => match g_pipe(a) { None => None, Some((c, p)) => match g_end(g_lines(c).0) { None => None, Some((d, e)) => Some((d, (seq![b, p] + g_lines(c).1).push(e))) } } }
}
pub open spec fn g_none(s: Seq<char>) -> Option<(Seq<char>, Seq<Tok>)> { Some((s, Seq::empty())) }
pub open spec fn g_set(s: Seq<char>) -> Option<(Seq<char>, Seq<Tok>)> { if g_has(s) is Some { g_has(s) } else { g_none(s) } }
/// a text is read as a whole or not at all
pub open spec fn whole(g: Option<(Seq<char>, Seq<Tok>)>) -> Option<Seq<Tok>> { match g { Some((r, t)) => if r.len() == 0 { Some(t) } else { None }, None => None } }

// ---- loops over characters
pub open spec fn ran(a: Seq<char>, b: Seq<char>, f: spec_fn(char) -> bool) -> bool { b.len() <= a.len() && b =~= a.skip(a.len() - b.len()) && run(a, f) == a.len() - b.len() + run(b, f) }
pub proof fn lemma_step(a: Seq<char>, b: Seq<char>, f: spec_fn(char) -> bool)
    requires ran(a, b, f), b.len() > 0, f(b[0]),
    ensures ran(a, b.skip(1), f),
{
    assert(b.skip(1) =~= a.skip(a.len() - b.len() + 1));
}
pub proof fn lemma_run(s: Seq<char>, f: spec_fn(char) -> bool)
    ensures 0 <= run(s, f) <= s.len(), forall|i: int| 0 <= i < run(s, f) ==> f(#[trigger] s[i]), run(s, f) < s.len() ==> !f(s[run(s, f)]),
    decreases s.len(),
{
    if s.len() > 0 && f(s[0]) {
        lemma_run(s.skip(1), f);
        assert forall|i: int| 0 <= i < run(s, f) implies f(#[trigger] s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
    }
}
pub proof fn lemma_lit(s: Seq<char>, l: Seq<char>)
    ensures lit(s, l) is Some ==> (lit(s, l)->0).len() == s.len() - l.len(), l.len() == 1 ==> (lit(s, l) is Some <==> s.len() > 0 && s[0] == l[0]), l.len() == 0 ==> lit(s, l) == Some(s),
{
    if l.len() == 1 && s.len() > 0 { assert(s.take(1) =~= seq![s[0]]); if s[0] == l[0] { assert(l =~= seq![s[0]]); } else { assert(s.take(1)[0] == s[0]); } }
    if l.len() == 0 { assert(s.take(0) =~= l); assert(s.skip(0) =~= s); }
}
pub proof fn lemma_words()
    ensures "faucet"@.len() == 6, "drain"@.len() == 5, "regulator"@.len() == 9, "junction"@.len() == 8, "buffer"@.len() == 6, "launch"@.len() == 6,
        "f"@ == seq!['f'], "d"@ == seq!['d'], "r"@ == seq!['r'], "j"@ == seq!['j'], "b"@ == seq!['b'], "l"@ == seq!['l'],
        "faucet"@[0] == 'f', "drain"@[0] == 'd', "regulator"@[0] == 'r', "junction"@[0] == 'j', "buffer"@[0] == 'b', "launch"@[0] == 'l',
        "T"@ == seq!['T'], "C"@ == seq!['C'], "F"@ == seq!['F'], "X"@ == seq!['X'], "E"@ == seq!['E'], "O"@ == seq!['O'], "-"@ == seq!['-'], "|"@ == seq!['|'], "["@ == seq!['['], "]"@ == seq![']'], " "@ == seq![' '], ":"@ == seq![':'], ""@ == Seq::<char>::empty(),
{
    reveal_strlit("faucet"); reveal_strlit("drain"); reveal_strlit("regulator"); reveal_strlit("junction"); reveal_strlit("buffer"); reveal_strlit("launch");
    reveal_strlit("f"); reveal_strlit("d"); reveal_strlit("r"); reveal_strlit("j"); reveal_strlit("b"); reveal_strlit("l");
    reveal_strlit("T"); reveal_strlit("C"); reveal_strlit("F"); reveal_strlit("X"); reveal_strlit("E"); reveal_strlit("O"); reveal_strlit("-"); reveal_strlit("|"); reveal_strlit("["); reveal_strlit("]"); reveal_strlit(" "); reveal_strlit(":"); reveal_strlit("");
    assert("f"@ =~= seq!['f']); assert("d"@ =~= seq!['d']); assert("r"@ =~= seq!['r']); assert("j"@ =~= seq!['j']); assert("b"@ =~= seq!['b']); assert("l"@ =~= seq!['l']);
    assert("T"@ =~= seq!['T']); assert("C"@ =~= seq!['C']); assert("F"@ =~= seq!['F']); assert("X"@ =~= seq!['X']); assert("E"@ =~= seq!['E']); assert("O"@ =~= seq!['O']);
    assert("-"@ =~= seq!['-']); assert("|"@ =~= seq!['|']); assert("["@ =~= seq!['[']); assert("]"@ =~= seq![']']); assert(" "@ =~= seq![' ']); assert(":"@ =~= seq![':']); assert(""@ =~= Seq::<char>::empty());
}
// ---- what is left is never longer
pub proof fn lemma_name(s: Seq<char>) ensures g_name(s) matches Some((a, _)) ==> a.len() < s.len() { lemma_run(s, word()); }
pub proof fn lemma_type(s: Seq<char>) ensures g_type(s) matches Some((a, _)) ==> a.len() < s.len() {
    lemma_words();
    lemma_lit(s, "faucet"@); lemma_lit(s, "drain"@); lemma_lit(s, "regulator"@); lemma_lit(s, "junction"@); lemma_lit(s, "buffer"@); lemma_lit(s, "launch"@);
    lemma_lit(s, "f"@); lemma_lit(s, "d"@); lemma_lit(s, "r"@); lemma_lit(s, "j"@); lemma_lit(s, "b"@); lemma_lit(s, "l"@);
}
pub proof fn lemma_identifier(s: Seq<char>) ensures g_identifier(s) matches Some((a, _)) ==> a.len() < s.len() {
    lemma_type(s);
    if let Some((a, _)) = g_type(s) { lemma_words(); lemma_lit(a, ":"@); if let Some((b, _)) = g_sep(a) { lemma_name(b); } }
}
pub proof fn lemma_in(s: Seq<char>) ensures g_in(s) matches Some((a, _)) ==> a.len() < s.len() {
    lemma_words(); lemma_lit(s, "["@);
    if let Some(a) = lit(s, "["@) { lemma_lit(a, "-"@); let z = signed(a); lemma_run(z, digit()); if let Some((b, _)) = g_pref(a) { lemma_lit(b, "]"@); } }
}
pub proof fn lemma_out(s: Seq<char>) ensures g_out(s) matches Some((a, _)) ==> a.len() < s.len() {
    lemma_words(); lemma_lit(s, "["@);
    if let Some(a) = lit(s, "["@) { if a.len() > 0 { lemma_lit(a.skip(1), "]"@); } }
}
pub proof fn lemma_pipe(s: Seq<char>) ensures g_pipe(s) matches Some((a, _)) ==> a.len() < s.len() {
    lemma_words(); lemma_run(s, blank()); let t = s.skip(run(s, blank())); lemma_lit(t, "|"@);
    if let Some(a) = lit(t, "|"@) { lemma_lit(a, "T"@); lemma_lit(a, "C"@); lemma_lit(a, "F"@); if let Some((b, _)) = g_code(a) { lemma_lit(b, "|"@); } }
    if let Some((a, _)) = g_bar(t) { lemma_run(a, blank()); }
}
pub proof fn lemma_middle(s: Seq<char>) ensures g_middle(s) matches Some((a, _)) ==> a.len() < s.len() {
    lemma_in(s); lemma_identifier(s);
    if let Some((a, _)) = g_in(s) { lemma_identifier(a); if let Some((b, _)) = g_identifier(a) { lemma_out(b); } }
    if let Some((b, _)) = g_identifier(s) { lemma_out(b); }
}
pub proof fn lemma_line(s: Seq<char>) ensures g_line(s) matches Some((a, _)) ==> a.len() < s.len() { lemma_middle(s); if let Some((a, _)) = g_middle(s) { lemma_pipe(a); } }
}
