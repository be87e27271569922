// Every way of writing a connection list is read as that list.
verus!{
/// type (word or first letter) and name
pub ghost struct Id { pub long: bool, pub ct: ComponentType, pub name: Seq<char> }
/// what is written between `[` and `]` in front of a component
pub ghost struct Num { pub minus: bool, pub digits: Seq<char> }
/// blanks, policy if written, blanks
pub ghost struct Bar { pub before: nat, pub b: Option<Breakable>, pub after: nat }
pub ghost struct Place { pub inp: Option<Num>, pub id: Id, pub out: Option<OutputPort> }
pub ghost struct Line { pub first: Place, pub bar: Bar, pub middle: Seq<(Place, Bar)>, pub last: Place }

pub open spec fn type_word(ct: ComponentType, long: bool) -> Seq<char> {
    match ct {
        ComponentType::Faucet => if long { "faucet"@ } else { "f"@ }, ComponentType::Drain => if long { "drain"@ } else { "d"@ }, ComponentType::Regulator => if long { "regulator"@ } else { "r"@ },
        ComponentType::Junction => if long { "junction"@ } else { "j"@ }, ComponentType::Buffer => if long { "buffer"@ } else { "b"@ }, ComponentType::Launch => if long { "launch"@ } else { "l"@ },
    }
}
pub open spec fn port_word(o: OutputPort) -> Seq<char> { match o { OutputPort::Out => "O"@, OutputPort::Err => "E"@, OutputPort::Exit => "X"@ } }
pub open spec fn policy_word(b: Breakable) -> Seq<char> { match b { Breakable::Terminate => "T"@, Breakable::Consume => "C"@, Breakable::Finish => "F"@ } }
pub open spec fn blanks(n: nat) -> Seq<char> { Seq::new(n, |i: int| ' ') }
// each with the text that follows it
pub open spec fn w_id(i: Id, t: Seq<char>) -> Seq<char> { type_word(i.ct, i.long) + (":"@ + (i.name + t)) }
pub open spec fn w_num(n: Num) -> Seq<char> { if n.minus { "-"@ + n.digits } else { n.digits } }
pub open spec fn w_in(n: Option<Num>, t: Seq<char>) -> Seq<char> { match n { None => t, Some(n) => "["@ + (w_num(n) + ("]"@ + t)) } }
pub open spec fn w_out(o: Option<OutputPort>, t: Seq<char>) -> Seq<char> { match o { None => t, Some(o) => "["@ + (port_word(o) + ("]"@ + t)) } }
pub open spec fn w_bar(p: Bar, t: Seq<char>) -> Seq<char> { blanks(p.before) + ("|"@ + (match p.b { None => blanks(p.after) + t, Some(b) => policy_word(b) + ("|"@ + (blanks(p.after) + t)) })) }
pub open spec fn w_place(p: Place, t: Seq<char>) -> Seq<char> { w_in(p.inp, w_id(p.id, w_out(p.out, t))) }
pub open spec fn w_middles(m: Seq<(Place, Bar)>, t: Seq<char>) -> Seq<char> decreases m.len() { if m.len() == 0 { t } else { w_place(m[0].0, w_bar(m[0].1, w_middles(m.skip(1), t))) } }
/// the list as it is written
pub open spec fn w_line(l: Line) -> Seq<char> { w_place(l.first, w_bar(l.bar, w_middles(l.middle, w_place(l.last, Seq::empty())))) }

pub open spec fn proper_id(i: Id) -> bool { i.name.len() > 0 && forall|k: int| 0 <= k < i.name.len() ==> is_word(#[trigger] i.name[k]) }
pub open spec fn proper_num(n: Option<Num>) -> bool { match n { None => true, Some(n) => forall|k: int| 0 <= k < n.digits.len() ==> is_digit(#[trigger] n.digits[k]) } }
pub open spec fn proper(p: Place) -> bool { proper_id(p.id) && proper_num(p.inp) }
pub open spec fn proper_line(l: Line) -> bool { proper(l.first) && l.first.inp is None && (forall|k: int| 0 <= k < l.middle.len() ==> proper((#[trigger] l.middle[k]).0)) && proper(l.last) && l.last.out is None }

// what is written
pub open spec fn port_of(o: Option<OutputPort>) -> OutputPort { match o { Some(o) => o, None => OutputPort::Out } }
pub open spec fn policy_of(b: Bar) -> Breakable { match b.b { Some(b) => b, None => Breakable::Terminate } }
/// absent, unreadable or too large: 0
pub open spec fn priority_of(n: Option<Num>) -> isize { match n { None => 0, Some(n) => match as_isize(w_num(n)) { Some(v) => v, None => 0 } } }
pub open spec fn d_middle(b: Bar, p: Place) -> Tok { Tok::Middle(p.id.ct, p.id.name, InputPort { breakable: policy_of(b), priority: priority_of(p.inp) }, port_of(p.out), None) }
pub open spec fn d_end(b: Bar, p: Place) -> Tok { Tok::End(p.id.ct, p.id.name, InputPort { breakable: policy_of(b), priority: priority_of(p.inp) }, None) }
/// the bar in front of the k-th middle, or of the last
pub open spec fn bar_at(l: Line, k: int) -> Bar { if k == 0 { l.bar } else { l.middle[k - 1].1 } }
pub open spec fn denoted(l: Line) -> Seq<Tok> {
    Seq::new((l.middle.len() + 2) as nat, |k: int| if k == 0 { Tok::Start(l.first.id.ct, l.first.id.name, port_of(l.first.out), None) }
        else if k <= l.middle.len() { d_middle(bar_at(l, k - 1), l.middle[k - 1].0) } else { d_end(bar_at(l, l.middle.len() as int), l.last) })
}

// ---- reading back
proof fn l_front(l: Seq<char>, t: Seq<char>)
    ensures lit(l + t, l) == Some(t), (l + t).take(l.len() as int) == l, (l + t).skip(l.len() as int) == t, l.len() > 0 ==> (l + t)[0] == l[0], l.len() == 1 && t.len() > 0 ==> (l + t)[1] == t[0],
{
    assert((l + t).take(l.len() as int) =~= l);
    assert((l + t).skip(l.len() as int) =~= t);
}
proof fn l_lit(s: Seq<char>, l: Seq<char>)
    ensures lit(s, l) is Some && l.len() > 0 ==> s.len() > 0 && s[0] == l[0], lit(s, l) is Some && l.len() > 1 ==> s.len() > 1 && s[1] == l[1],
{
    if lit(s, l) is Some { if l.len() > 0 { assert(s.take(l.len() as int)[0] == s[0]); } if l.len() > 1 { assert(s.take(l.len() as int)[1] == s[1]); } }
}
proof fn l_run(n: Seq<char>, t: Seq<char>, f: spec_fn(char) -> bool)
    requires forall|k: int| 0 <= k < n.len() ==> f(#[trigger] n[k]), t.len() == 0 || !f(t[0]),
    ensures run(n + t, f) == n.len(), (n + t).skip(n.len() as int) == t, (n + t).take(n.len() as int) == n,
    decreases n.len(),
{
    l_front(n, t);
    if n.len() == 0 { assert(n + t =~= t); } else {
        let m = n.skip(1);
        assert forall|k: int| 0 <= k < m.len() implies f(#[trigger] m[k]) by { assert(m[k] == n[k + 1]); }
        l_run(m, t, f);
        assert((n + t).skip(1) =~= m + t);
        assert((n + t)[0] == n[0]);
    }
}
proof fn l_long()
    ensures "faucet"@[1] == 'a', "drain"@[1] == 'r', "regulator"@[1] == 'e', "junction"@[1] == 'u', "buffer"@[1] == 'u', "launch"@[1] == 'a',
{
    reveal_strlit("faucet"); reveal_strlit("drain"); reveal_strlit("regulator"); reveal_strlit("junction"); reveal_strlit("buffer"); reveal_strlit("launch");
}
pub open spec fn letter(c: char) -> bool { c == 'f' || c == 'd' || c == 'r' || c == 'j' || c == 'b' || c == 'l' }
proof fn l_type(ct: ComponentType, long: bool, u: Seq<char>)
    requires u.len() > 0, u[0] == ':',
    ensures g_type(type_word(ct, long) + u) == Some((u, ct)), (type_word(ct, long) + u).len() > 0, letter((type_word(ct, long) + u)[0]),
{
    lemma_words(); l_long();
    let s = type_word(ct, long) + u;
    l_front(type_word(ct, long), u);
    l_lit(s, "faucet"@); l_lit(s, "drain"@); l_lit(s, "regulator"@); l_lit(s, "junction"@); l_lit(s, "buffer"@); l_lit(s, "launch"@);
    l_lit(s, "f"@); l_lit(s, "d"@); l_lit(s, "r"@); l_lit(s, "j"@); l_lit(s, "b"@); l_lit(s, "l"@);
}
proof fn l_id(i: Id, t: Seq<char>)
    requires proper_id(i), t.len() == 0 || !is_word(t[0]),
    ensures g_identifier(w_id(i, t)) == Some((t, (i.ct, i.name))), w_id(i, t).len() > 0, letter(w_id(i, t)[0]),
{
    lemma_words();
    let u = ":"@ + (i.name + t);
    l_front(":"@, i.name + t);
    l_type(i.ct, i.long, u);
    l_run(i.name, t, word());
}
proof fn l_no(s: Seq<char>, l: Seq<char>)
    requires l.len() == 1, s.len() == 0 || s[0] != l[0],
    ensures lit(s, l) is None,
{
    lemma_lit(s, l);
}
proof fn l_in(n: Num, t: Seq<char>)
    requires proper_num(Some(n)),
    ensures g_in(w_in(Some(n), t)) == Some((t, InputPort { breakable: Breakable::Terminate, priority: priority_of(Some(n)) })), w_in(Some(n), t).len() > 0, w_in(Some(n), t)[0] == '[',
{
    lemma_words();
    let c = "]"@ + t;
    let a = w_num(n) + c;
    l_front("["@, a); l_front("]"@, t);
    l_run(n.digits, c, digit());
    if n.minus {
        assert(a =~= "-"@ + (n.digits + c));
        l_front("-"@, n.digits + c);
        assert(signed(a) == n.digits + c);
    } else {
        assert(a == n.digits + c);
        if n.digits.len() > 0 { assert(a[0] == n.digits[0]); assert(is_digit(n.digits[0])); } else { assert(a =~= c); }
        l_no(a, "-"@);
        assert(signed(a) == a);
    }
    l_front(w_num(n), c);
    assert(a.len() - c.len() == w_num(n).len());
    assert(g_pref(a) == Some((c, priority_of(Some(n)))));
}
proof fn l_out(o: OutputPort, t: Seq<char>)
    ensures g_out(w_out(Some(o), t)) == Some((t, o)), w_out(Some(o), t).len() > 0, w_out(Some(o), t)[0] == '[',
{
    lemma_words();
    let c = "]"@ + t;
    let a = port_word(o) + c;
    l_front("["@, a); l_front("]"@, t); l_front(port_word(o), c);
    assert(a.skip(1) == c);
}
/// the text after a bar begins a component
pub open spec fn begins(t: Seq<char>) -> bool { t.len() > 0 && (t[0] == '[' || letter(t[0])) }
/// the text after a component begins a bar, or nothing does
pub open spec fn separate(t: Seq<char>) -> bool { t.len() == 0 || t[0] == ' ' || t[0] == '|' }
proof fn l_bar(p: Bar, t: Seq<char>)
    requires begins(t),
    ensures g_pipe(w_bar(p, t)) == Some((t, Tok::Pipe(policy_of(p)))), w_bar(p, t).len() > 0, separate(w_bar(p, t)),
{
    lemma_words();
    let r = blanks(p.after) + t;
    l_run(blanks(p.after), t, blank());
    match p.b {
        None => {
            let s = "|"@ + r;
            l_front("|"@, r);
            l_run(blanks(p.before), s, blank());
            assert(w_bar(p, t) == blanks(p.before) + s);
            if p.after == 0 { assert(r =~= t); } else { assert(r[0] == ' '); }
            l_no(r, "T"@); l_no(r, "C"@); l_no(r, "F"@);
            assert(g_typed(s) is None);
            assert(g_bar(s) == Some((r, Breakable::Terminate)));
        },
        Some(b) => {
            let e = "|"@ + r;
            let a = policy_word(b) + e;
            let s = "|"@ + a;
            l_front("|"@, r); l_front(policy_word(b), e); l_front("|"@, a);
            l_run(blanks(p.before), s, blank());
            assert(w_bar(p, t) == blanks(p.before) + s);
            l_lit(a, "T"@); l_lit(a, "C"@); l_lit(a, "F"@);
            assert(g_code(a) == Some((e, b)));
            assert(g_bar(s) == Some((r, b)));
        },
    }
    if p.before > 0 { assert(w_bar(p, t)[0] == ' '); } else { assert(w_bar(p, t)[0] == '|'); }
}
proof fn l_after(o: Option<OutputPort>, t: Seq<char>)
    requires separate(t),
    ensures w_out(o, t).len() == 0 || !is_word(w_out(o, t)[0]), match o { Some(x) => g_out(w_out(o, t)) == Some((t, x)), None => g_out(w_out(o, t)) is None },
{
    lemma_words();
    match o { Some(x) => l_out(x, t), None => l_no(t, "["@) }
}
proof fn l_middle(p: Place, t: Seq<char>)
    requires proper(p), separate(t),
    ensures g_middle(w_place(p, t)) == Some((t, Tok::Middle(p.id.ct, p.id.name, InputPort { breakable: Breakable::Terminate, priority: priority_of(p.inp) }, port_of(p.out), None))), begins(w_place(p, t)),
{
    lemma_words();
    let u = w_out(p.out, t);
    let v = w_id(p.id, u);
    l_after(p.out, t);
    l_id(p.id, u);
    match p.inp {
        Some(n) => { l_in(n, v); l_lit(w_place(p, t), "f"@); no_type(w_place(p, t)); },
        None => { l_no(v, "["@); },
    }
}
proof fn no_type(s: Seq<char>)
    requires s.len() > 0, s[0] == '[',
    ensures g_type(s) is None, g_identifier(s) is None,
{
    lemma_words();
    l_lit(s, "faucet"@); l_lit(s, "drain"@); l_lit(s, "regulator"@); l_lit(s, "junction"@); l_lit(s, "buffer"@); l_lit(s, "launch"@);
    l_lit(s, "f"@); l_lit(s, "d"@); l_lit(s, "r"@); l_lit(s, "j"@); l_lit(s, "b"@); l_lit(s, "l"@);
}
proof fn l_start(p: Place, t: Seq<char>)
    requires proper(p), p.inp is None, separate(t),
    ensures g_start(w_place(p, t)) == Some((t, Tok::Start(p.id.ct, p.id.name, port_of(p.out), None))),
{
    l_after(p.out, t);
    l_id(p.id, w_out(p.out, t));
}
proof fn l_end(p: Place)
    requires proper(p), p.out is None,
    ensures g_end(w_place(p, Seq::empty())) == Some((Seq::<char>::empty(), Tok::End(p.id.ct, p.id.name, InputPort { breakable: Breakable::Terminate, priority: priority_of(p.inp) }, None))), g_line(w_place(p, Seq::empty())) is None, begins(w_place(p, Seq::empty())),
{
    lemma_words();
    let t = Seq::<char>::empty();
    l_middle(p, t);
    l_id(p.id, t);
    l_no(t, "|"@);
    assert(t.skip(0) =~= t);
    assert(g_pipe(t) is None);
    match p.inp {
        Some(n) => { l_in(n, w_id(p.id, t)); },
        None => { l_no(w_id(p.id, t), "["@); },
    }
}
pub open spec fn plain(p: Place) -> Tok { Tok::Middle(p.id.ct, p.id.name, InputPort { breakable: Breakable::Terminate, priority: priority_of(p.inp) }, port_of(p.out), None) }
pub open spec fn pieces(m: Seq<(Place, Bar)>) -> Seq<Tok> decreases m.len() { if m.len() == 0 { Seq::empty() } else { seq![plain(m[0].0), Tok::Pipe(policy_of(m[0].1))] + pieces(m.skip(1)) } }
proof fn l_middles(m: Seq<(Place, Bar)>, t: Seq<char>)
    requires forall|k: int| 0 <= k < m.len() ==> proper((#[trigger] m[k]).0), begins(t), g_line(t) is None,
    ensures g_lines(w_middles(m, t)) == (t, pieces(m)), begins(w_middles(m, t)),
    decreases m.len(),
{
    hide(g_middle); hide(g_pipe);
    if m.len() > 0 {
        let n = m.skip(1);
        assert forall|k: int| 0 <= k < n.len() implies proper((#[trigger] n[k]).0) by { assert(n[k] == m[k + 1]); }
        l_middles(n, t);
        let u = w_middles(n, t);
        l_bar(m[0].1, u);
        l_middle(m[0].0, w_bar(m[0].1, u));
        lemma_line(w_middles(m, t));
    }
}
proof fn l_pieces(m: Seq<(Place, Bar)>)
    ensures pieces(m).len() == 2 * m.len(), forall|k: int| 0 <= k < m.len() ==> #[trigger] pieces(m)[2 * k] == plain(m[k].0) && pieces(m)[2 * k + 1] == Tok::Pipe(policy_of(m[k].1)),
    decreases m.len(),
{
    if m.len() > 0 {
        let n = m.skip(1);
        l_pieces(n);
        assert forall|k: int| 0 <= k < m.len() implies #[trigger] pieces(m)[2 * k] == plain(m[k].0) && pieces(m)[2 * k + 1] == Tok::Pipe(policy_of(m[k].1)) by {
            if k > 0 { assert(pieces(m)[2 * k] == pieces(n)[2 * (k - 1)]); assert(pieces(m)[2 * k + 1] == pieces(n)[2 * (k - 1) + 1]); assert(n[k - 1] == m[k]); }
        }
    }
}
pub open spec fn parts(l: Line) -> Seq<Tok> {
    (seq![Tok::Start(l.first.id.ct, l.first.id.name, port_of(l.first.out), None), Tok::Pipe(policy_of(l.bar))] + pieces(l.middle)).push(Tok::End(l.last.id.ct, l.last.id.name, InputPort { breakable: Breakable::Terminate, priority: priority_of(l.last.inp) }, None))
}
proof fn l_folded(l: Line, k: int)
    requires 0 <= k <= l.middle.len(),
    ensures folded(parts(l).take(2 * k + 2)) == denoted(l).take(k + 1), policy(parts(l).take(2 * k + 2)) == Some(policy_of(bar_at(l, k))),
    decreases k,
{
    l_pieces(l.middle);
    let ts = parts(l);
    let a = ts.take(2 * k + 2);
    assert(a.drop_last() =~= ts.take(2 * k + 1));
    let b = ts.take(2 * k + 1);
    if k == 0 {
        assert(b.drop_last() =~= Seq::empty());
        assert(folded(Seq::<Tok>::empty()) =~= Seq::empty());
        assert(folded(b) =~= denoted(l).take(1));
    } else {
        l_folded(l, k - 1);
        assert(b.drop_last() =~= ts.take(2 * (k - 1) + 2));
        assert(ts[2 * k] == pieces(l.middle)[2 * (k - 1)]);
        assert(ts[2 * k + 1] == pieces(l.middle)[2 * (k - 1) + 1]);
        assert(b.last() == plain(l.middle[k - 1].0));
        assert(folded(b) =~= denoted(l).take(k + 1));
    }
}
/// THEOREM: however a connection list is written, it is read as what it denotes
pub proof fn theorem_read(l: Line)
    requires proper_line(l),
    ensures read(w_line(l)) == Some(denoted(l)),
{
    hide(g_start); hide(g_pipe); hide(g_end); hide(g_line);
    let t = w_place(l.last, Seq::empty());
    l_end(l.last);
    l_middles(l.middle, t);
    let u = w_middles(l.middle, t);
    l_bar(l.bar, u);
    l_start(l.first, w_bar(l.bar, u));
    assert(g_set(w_line(l)) == Some((Seq::<char>::empty(), parts(l))));
    l_pieces(l.middle);
    let n = l.middle.len() as int;
    l_folded(l, n);
    assert(parts(l).drop_last() =~= parts(l).take(2 * n + 2));
    assert(folded(parts(l)) =~= denoted(l));
}
/// the empty text denotes nothing
pub proof fn theorem_empty() ensures read(Seq::empty()) == Some(Seq::<Tok>::empty()) {
    let s = Seq::<char>::empty();
    lemma_type(s);
    assert(g_has(s) is None);
    assert(folded(Seq::<Tok>::empty()) =~= Seq::empty());
}

// ---- nothing else is read
proof fn s_lit(s: Seq<char>, l: Seq<char>) requires lit(s, l) is Some ensures s == l + lit(s, l)->0 { assert(s =~= s.take(l.len() as int) + s.skip(l.len() as int)); }
proof fn s_run(s: Seq<char>, f: spec_fn(char) -> bool) -> (r: (Seq<char>, Seq<char>))
    ensures r.0 == s.take(run(s, f)), r.1 == s.skip(run(s, f)), s == r.0 + r.1, r.0.len() == run(s, f), forall|k: int| 0 <= k < r.0.len() ==> f(#[trigger] r.0[k]),
{
    lemma_run(s, f);
    assert(s =~= s.take(run(s, f)) + s.skip(run(s, f)));
    (s.take(run(s, f)), s.skip(run(s, f)))
}
proof fn s_blanks(s: Seq<char>) -> (n: nat) ensures s == blanks(n) + s.skip(run(s, blank())) {
    let r = s_run(s, blank());
    assert(r.0 =~= blanks(r.0.len())) by { assert forall|k: int| 0 <= k < r.0.len() implies r.0[k] == ' ' by { assert((blank())(r.0[k])); } }
    r.0.len()
}
proof fn s_id(s: Seq<char>) -> (i: Id) requires g_identifier(s) is Some ensures proper_id(i), s == w_id(i, (g_identifier(s)->0).0) {
    let (a, ct) = g_type(s)->0;
    let (b, _) = g_sep(a)->0;
    let r = s_run(b, word());
    s_lit(a, ":"@);
    let long = lit(s, type_word(ct, true)) is Some;
    s_lit(s, type_word(ct, long));
    Id { long, ct, name: r.0 }
}
proof fn s_in(s: Seq<char>) -> (n: Num) requires g_in(s) is Some ensures proper_num(Some(n)), s == w_in(Some(n), (g_in(s)->0).0) {
    let a = lit(s, "["@)->0;
    s_lit(s, "["@);
    let z = signed(a);
    let r = s_run(z, digit());
    s_lit(r.1, "]"@);
    let minus = lit(a, "-"@) is Some;
    let n = Num { minus, digits: r.0 };
    if minus { s_lit(a, "-"@); assert(a =~= w_num(n) + r.1); } else { assert(a == w_num(n) + r.1); }
    n
}
proof fn s_out(s: Seq<char>) -> (o: OutputPort) requires g_out(s) is Some ensures s == w_out(Some(o), (g_out(s)->0).0) {
    lemma_words();
    let a = lit(s, "["@)->0;
    s_lit(s, "["@);
    s_lit(a.skip(1), "]"@);
    let o = (g_out(s)->0).1;
    assert(a =~= port_word(o) + a.skip(1));
    o
}
proof fn s_bar(s: Seq<char>) -> (p: Bar) requires g_pipe(s) is Some ensures s == w_bar(p, (g_pipe(s)->0).0) {
    let m = s_blanks(s);
    let x = s.skip(run(s, blank()));
    let (e, k) = g_bar(x)->0;
    let n = s_blanks(e);
    s_lit(x, "|"@);
    if g_typed(x) is Some {
        let a = lit(x, "|"@)->0;
        let (b, _) = g_code(a)->0;
        s_lit(b, "|"@);
        s_lit(a, policy_word(k));
        Bar { before: m, b: Some(k), after: n }
    } else {
        Bar { before: m, b: None, after: n }
    }
}
proof fn s_start(s: Seq<char>) -> (p: Place) requires g_start(s) is Some ensures proper(p), p.inp is None, s == w_place(p, (g_start(s)->0).0) {
    let id = s_id(s);
    let b = (g_identifier(s)->0).0;
    if g_out(b) is Some { let o = s_out(b); Place { inp: None, id, out: Some(o) } } else { Place { inp: None, id, out: None } }
}
proof fn s_end(s: Seq<char>) -> (p: Place) requires g_end(s) is Some ensures proper(p), p.out is None, s == w_place(p, (g_end(s)->0).0) {
    if g_end_full(s) is Some { let n = s_in(s); let id = s_id((g_in(s)->0).0); Place { inp: Some(n), id, out: None } } else { let id = s_id(s); Place { inp: None, id, out: None } }
}
proof fn s_middle(s: Seq<char>) -> (p: Place) requires g_middle(s) is Some ensures proper(p), s == w_place(p, (g_middle(s)->0).0) {
    if g_middle_full(s) is Some {
        let n = s_in(s); let a = (g_in(s)->0).0; let id = s_id(a); let o = s_out((g_identifier(a)->0).0);
        Place { inp: Some(n), id, out: Some(o) }
    } else if g_middle_out(s) is Some {
        let id = s_id(s); let o = s_out((g_identifier(s)->0).0);
        Place { inp: None, id, out: Some(o) }
    } else if g_middle_in(s) is Some {
        let n = s_in(s); let id = s_id((g_in(s)->0).0);
        Place { inp: Some(n), id, out: None }
    } else {
        let id = s_id(s);
        Place { inp: None, id, out: None }
    }
}
proof fn s_middles(s: Seq<char>) -> (m: Seq<(Place, Bar)>)
    ensures forall|k: int| 0 <= k < m.len() ==> proper((#[trigger] m[k]).0), s == w_middles(m, g_lines(s).0),
    decreases s.len(),
{
    hide(g_middle); hide(g_pipe);
    match g_line(s) {
        Some((a, t)) => {
            lemma_line(s);
            let p = s_middle(s);
            let b = s_bar((g_middle(s)->0).0);
            let n = s_middles(a);
            let m = seq![(p, b)] + n;
            assert(m.skip(1) =~= n);
            assert forall|k: int| 0 <= k < m.len() implies proper((#[trigger] m[k]).0) by { if k > 0 { assert(m[k] == n[k - 1]); } }
            m
        },
        None => Seq::empty(),
    }
}
/// THEOREM: a text that is read is empty or a connection list written down; anything else is refused
pub proof fn theorem_refused(s: Seq<char>) -> (l: Line)
    requires read(s) is Some, s.len() > 0,
    ensures proper_line(l), s == w_line(l), read(s) == Some(denoted(l)),
{
    hide(g_start); hide(g_pipe); hide(g_end); hide(g_line);
    let (a, _) = g_start(s)->0;
    let (c, _) = g_pipe(a)->0;
    let d = g_lines(c).0;
    let first = s_start(s);
    let bar = s_bar(a);
    let middle = s_middles(c);
    let last = s_end(d);
    assert((g_end(d)->0).0 =~= Seq::empty());
    let l = Line { first, bar, middle, last };
    theorem_read(l);
    l
}
}
