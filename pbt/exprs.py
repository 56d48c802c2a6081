"""Every form of Rust expression, as an argument of a message.

`@` stands for an operand: a number of type i64, or a .field path that has that type, so that a
shorthand stands wherever an operand can begin. VALUES can be displayed, OTHERS only debugged, and
the type of UNSHOWN ones has no formatting at all (they can only be in definitions that are rejected).
"""

VALUES = """
@ + @
@ - @
@ * @
@ / 3
90 / @
@ % 7
7 % @
@ ^ @
@ | @
@ & @
@ << 1
@ >> 1
1 >> (@ & 7)
@ == @
@ != @
@ < @
@ > @
@ <= @
@ >= @
1 == @
1 != @
1 < @
1 > @
1 <= @
1 >= @
7 + @
7 - @
7 * @
7 ^ @
7 | @
7 & @
true && @ < 3
true || @ < 3
1 + @ < 3 && @ > 2 || !true
-@
!@
- - @
!!-@
*&@
&@
&&@
&&&@
&mut @
&mut @ as &i64
*&mut @
-*&@ + -*&&@
(@)
((@, @)).0
(@, @).1
(@,).0
[@, @][0]
[@; 3][2]
[@, 5, @,].len()
[[@; 2]; 2][1][0]
((1, (@, 3)), 4).0.1.0
((1, (@, 3)), 4) . 0 . 1 . 1
{ @ }
{ 1; @ }
{ let q1 = @; q1 }
{ let q1: i64 = @; q1 + @ }
{ let (q1, q2): (i64, i64) = (@, @); q1 - q2 }
{ let Some(q1) = Some(@) else { panic!() }; q1 }
{ let mut q1 = 1; q1 += @; q1 -= @; q1 *= @; q1 ^= @; q1 |= @; q1 &= @; q1 }
{ let mut q1 = 100; q1 /= @; q1 %= @; q1 <<= @ & 3; q1 >>= @ & 3; q1 }
{ let q1; q1 = @; q1 }
{ _ = @; @ }
{ let kit::Limits { lo: q1, .. } = kit::Limits { lo: @, hi: @, name: String::new() }; q1 }
{ fn q<A, B>(q1: A, _: B) -> A { q1 } q::<i64, u8>(@, 1) }
{ const Q: i64 = 3; static R: i64 = 4; Q + R + @ }
{ enum Q<A, B> { A(A), #[allow(dead_code)] B(B) } match Q::<i64, (u8, u16)>::A(@) { Q::A(q1) => q1, _ => @ } }
{ #[allow(unused_variables)] let q1 = @; @ }
{ ; @ }
{ { 1 }; @ }
{ {}; {}; @ }
{ if true { } 3 + @ }
unsafe { @ }
unsafe { @ } + @
const { 3 } + @
if true { @ } else { 2 }
if @ == 1 { 1 } else { @ }
if 1 == @ { 1 } else { @ }
if !(@ > 1) { 1 } else if @ > 2 { @ } else { 2 }
if @ > 1 && @ < 9 || @ == 2 { @ } else if @ > 2 { @ } else if true { @ } else { @ }
if kit::W9 == 9 { @ } else { 2 }
if true == false { @ } else { 2 }
if { @ } > 1 { 1 } else { 2 }
if (kit::Limits { lo: @, hi: 2, name: String::new() }).lo > 1 { 1 } else { 2 }
if [@, 2].len() == 2 { 1 } else { 2 }
if let Some(q1) = Some(@) { q1 } else { 2 }
if let Some(q1) = None { q1 } else if let 1 | 2 = @ { 3 } else { @ }
if let 1..=3 | 5.. = @ { 3 } else { @ }
if let &(ref q1, mut q2) = &(@, @) { q2 += *q1; q2 } else { 2 }
if let q1 @ 1..=5 = @ { q1 } else { 2 }
if let [q1, .., _] = [@, @, 3] { q1 } else { 2 }
if let (_, -1) = (@, @) { 1 } else { 2 }
if let kit::Limits { lo: q1 @ 3, hi: _, .. } = (kit::Limits { lo: @, hi: @, name: String::new() }) { q1 } else { 2 }
if let Option::<i64>::Some(q1) = Some(@) { q1 } else { 2 }
if matches!(@, 1 | 2) { 1 } else { 2 }
if (|q1: i64| q1 > 2)(@) { 1 } else { 2 }
if let true = @ > 2 { 1 } else { 2 }
if @ as u8 as i64 == 3 { @ } else { 2 }
if unsafe { @ } > 1 { 1 } else { 2 }
if match @ { 0 => true, _ => false } { 1 } else { 2 }
if if @ > 2 { true } else { false } { 1 } else { 2 }
match @ { _ => 1 }
match @ { 0 => @, _ => @ }
match @ { 0 | 1 => @, q1 if q1 == @ => { @ } q1 if q1 > 2 => @, _ => @ }
match (@, @) { (q1, q2) => q1 - q2 }
match kit::W9 { 9 => @, _ => 2 }
match { @ } { 0..=3 => 1, _ => 2 }
match [@, @] { [q1, q2] => q1 * q2 }
match &@ { q1 => *q1 }
match *&@ { q1 => q1 }
match Some(@) { Some(q1) if q1 > 2 => q1, Some(_) | None => 4 }
match () { () => @ }
match @ { 1 => 1, _ => 2 } + @
match (kit::Limits { lo: @, hi: 2, name: String::new() }) { kit::Limits { lo, .. } => lo }
match true { true if @ > 2 => 1, _ => match @ { 3 => 3, _ => 4 } }
loop { break @ }
loop { break @; }
loop { if @ == 1 { break 5; }; break @ }
'q: loop { break 'q @ }
'q: loop { loop { break 'q @ + 1 } }
'q: { break 'q @ }
'q: { if @ > 3 { break 'q @; }; @ }
'q: { if @ > 3 { break 'q @ + @ } 1 - @ }
'q: loop { for q1 in 0..@ { if q1 > 2 { continue; }; break 'q q1 } break @ }
{ let mut q1 = 0; while q1 < @ && q1 < 3 { q1 += 1 } q1 }
{ let mut q1 = 0; 'q: while q1 < 3 { q1 += 1; continue 'q; } q1 + @ }
{ let mut q1 = 0; for q2 in [@, @] { q1 += q2 } q1 }
{ let mut q1 = 0; for (q2, _) in [(@, 1)].iter() { q1 += q2; } q1 }
{ let mut q1 = Some(@); while let Some(q2) = q1 { q1 = if q2 > 0 && q2 < 5 { Some(q2 - 1) } else { None } } 1 }
@ as u8
@ as u8 as char
@ as u8 as f64 + 0.5
@ as i32 + 1
(@ as usize) < 3
&@ as &dyn kit::Named<u8, Out = i64>
&@ as &(dyn kit::Named<u8, Out = i64> + Send)
&@ as &dyn std::fmt::Display
(&(@ as i64) as *const i64).is_null()
&@ as *const i64 == std::ptr::null()
(&raw const *&@).is_null()
(@ as u8) << 1
kit::id(@)
kit::id::<i64>(@)
kit::id::<(i64, u8)>((@, 1)).0
kit::add2(&@, &@)
kit::Two::<u8, kit::Two<u8, u16>>::N + @
kit::Two::<u8, u16>::N
core::mem::size_of::<kit::Arr<(u8, u16), { 3 + 4 }>>()
<i64 as kit::Conv<u8, u16>>::C + @
<i64 as kit::Conv::<u8, u16>>::C
<[u8; 2] as kit::Twos<u8>>::two() + @
<(u8, u16) as kit::Twos<u8>>::two()
<u8>::MAX
<[i64]>::len(&[@, @])
<str>::len("abc, d")
Vec::<(u8, u16)>::new().len() + 3
Vec::<fn(u8, u16) -> Vec<u8>>::new().len()
Vec::<[u8; 4]>::with_capacity(@ as usize & 7).is_empty()
Option::<i64>::Some(@).unwrap()
Some(@).map(|q1| q1 + @).unwrap()
Some(@).map(|q1: i64| -> i64 { q1 + @ }).unwrap_or_else(|| @)
Some(@).map_or::<i64, _>(3, |q1| q1)
Some(@).and_then::<i64, fn(i64) -> Option<i64>>(Some).unwrap()
Some(Some(@)).unwrap().unwrap()
(|| @)()
(|| -> i64 { @ })()
(|q1: i64, q2: i64| q1 - q2)(@, @)
(|(q1, _): (i64, u8), [q2]: [i64; 1]| q1 - q2)((@, 1), [@])
(move |q1| q1 + @)(@)
(|q1: Option<(i64, u8)>| q1.unwrap().0)(Some((@, 1)))
(|| -> Option<i64> { Some(Some(@)? + Some(@)?) })().unwrap()
(|| -> i64 { return @ })()
(|| { return @; })()
(|| -> Result<i64, u8> { if @ > 3 { return Err(1); }; return Ok(@) })().unwrap_or(4)
{ let q1 = |q2: i64| q2 + @; q1(@) }
{ let q1: fn(i64, i64) -> i64 = |q2, q3| q2 - q3; q1(@, @) }
kit::Limits { lo: @, hi: @, name: String::new() }.lo
kit::Limits { lo: @, ..kit::Limits { lo: 1, hi: @, name: String::new() } }.hi
kit::Limits { hi: 1, lo: 2 + @, name: String::from("a, b") }.span()
kit::Two { 0: @, 1: @ }.1
(0..@).count()
(0..=@).count()
(@..@).count()
(@..=@).count()
(..@).end
(1..).start + @
(..=@).contains(&3)
(0.. @ + 1).end
(@ .. 7).start
vec![@, @].len()
vec![@; 2].len()
vec!{@, @}.len()
vec!(@)[0]
vec![1, 2, 3][1..].len()
[1, 2, 3][.. 2].len()
[1, 2, 3][1 ..= 2].len()
matches!(@, 1 | 2)
matches!(@, q1 if q1 > 2)
format!("{}, {q}", @, q = @)
format!("{q:?}", q = (@, @))
format_args!("{} {}", @, 1).to_string()
concat!("a", 1, 'b')
concat!("a", ",", "b = c").len()
stringify!(a = b, c < d, e)
"lit, x = {}"
"a" == "a"
'{'
'\\''
b'x'
r#"raw, x = 1"#
r"a"
1.5
1.5e3
0x1f
1_000i64 + @
0b11u8
1.max(2)
1.0f64.max(2.0)
true
"a,b".len() + 1
"a".chars().next().unwrap()
"x=1, y=2".split(", ").collect::<Vec<&str>>().join(" = ")
[1, 2].iter().map(|q1| q1 + @).fold(0i64, |q1, q2| q1 * 2 + q2)
[(1, @)].iter().map(|&(q1, q2)| q1 + q2).sum::<i64>()
[(3, 1)].into_iter().collect::<std::collections::BTreeMap<_, _>>().len()
std::collections::HashMap::<u8, Vec<u8>>::new().len()
kit::W9
W9 == 9
W9 < 10
W9 != 9
W9 <= 9
W9 >= 9
W9 % 5
W9 & 3
W9 > 8 && @ < 3
true == (@ < 3)
false < (@ < 3)
true & (@ < 3)
if let _ = @ { @ } else { 2 }
if let (_, _) | (1, _) = (@, @) { @ } else { 2 }
if let mut q1 = @ { q1 += 1; q1 } else { 2 }
if let ref q1 = @ { *q1 } else { 2 }
if let (.., 3) | (3, ..) = (@, @) { 1 } else { 2 }
if let ..=3 = @ { 1 } else { 2 }
if let "a" | "b" = "a" { @ } else { 2 }
if let 'a'..='z' = 'q' { @ } else { 2 }
if let std::ops::Range { start: 1.., end: _ } = (1..@) { 1 } else { 2 }
if let kit::Two { 0: q1, 1: _ } = (kit::Two { 0: @, 1: 1 }) { q1 } else { 2 }
if let Some(&_ | &_) = Some(&@) { 1 } else { 2 }
if let | 3 = @ { 1 } else { 2 }
if let concat!("a", 'b') = "ab" { @ } else { 2 }
if let Some(concat!("a")) | None = Some("b") { @ } else { 2 }
if let concat!["a"] | concat! { "b" } = "a" { @ } else { 2 }
match @ { | 3 | 4 => 1, .. 3 => 2, _ => 3 }
W9 << 1 > 3
W9 as u8 as i64 + @
core::mem::size_of::<kit::Two<u8, u16>>()
i64::from(3u8) + @
i64::MAX.wrapping_add(@)
u8::from_str_radix("7", 10).unwrap()
str::len("a, b")
"a, b = c".parse::<u8>().is_err()
std::convert::identity::<fn(i64) -> i64>(kit::id)(@)
kit::ev(1, @) + kit::ev(2, @)
raw() + @
&raw()
&raw() + @
*&raw() < 9
&&raw() as &dyn std::fmt::Display
@ & raw()
@ < 9 && raw() < 9
""".strip().split("\n")  # fmt: skip

OTHERS = """
..
1..
..2
..=4
0..3
0..@
@..
..@
@..=@
@..@ + 1
..=@
(@, @)
(@,)
()
[@, @]
[@; 2]
[0; 2]
[..]
(..,)
{ }
{ 1; }
Some(@)
Some((1, @))
None::<(u8, u16)>
Option::<i64>::None
if @ == 3 { }
if true { @; }
for _ in 0..2 {}
for _ in [1] {}
for q1 in 0..@ { let _ = q1; }
for &(ref _q1, _) in &[(1, @)] {}
while @ == 77 { break; }
while let Some(_) = None::<u8> { break }
while false {}
'q: for _ in [1, 2] { if @ == 1 { break 'q; } else { continue 'q } }
match @ { _ => () }
loop { break }
unsafe {}
b"bytes, = "
br#"raw, ""#
c"c, str"
kit::Limits { lo: @, hi: @, name: String::new() }
(kit::Limits { lo: @, hi: 1, name: String::new() }).clone()
kit::Pair(@, kit::AllFmt(1))
vec![@, @]
vec![1, 2] == [1, 2] || true
"a".char_indices().next()
Some(3).filter(|q1: &i64| *q1 > 2)
&[@, @][..]
&[1, 2, 3][..2]
&(@, 1) as &dyn std::fmt::Debug
Some(1)..None
""".strip().split("\n")  # fmt: skip

# Only where a definition is rejected whatever the type; must still be read as one argument.
UNSHOWN = """
|| 1
|| -> u8 { 2 }
|q1: u8, q2: u16| q1
|q1: Vec<(u8, u16)>| -> Vec<u8> { vec![] }
|_, (a, b)| a + b
|q1| q1 < 3
||{}
move || 1
move |q1: u8| -> Option<u8> { Some(q1) }
static || 1
async { 1 }
async move { 1, }
async || 1
async move |q1: u8| q1
for<'q, 'r> |q1: &'q u8, q2: &'r u8| -> u8 { 1 }
return
return 1
return |a, b| a
break
break 'q
break 'q 1
continue
continue 'q
loop {}
let Some(q1) = Some(1)
if let Some(q1) = Some(1) && let Some(q2) = Some(2) { 1 } else { 2 }
_
yield 1
yield
a.b = b = c
a += 1
a[0] <<= 2
*a = 1
(a, b) = (1, 2)
a.b.await
a.await?.b
a?
a?.b::<u8, u16>(1, 2)?.c
S { a: 1, b }
S::<u8, u16> { a: 1, ..b }
<S<u8, u16> as T<u8>>::U { a }
<S as T>::U::<u8, u16>(1)
a::<{ 1 }, -1, 'q', u8>()
a as fn(u8, u16) -> Vec<u8>
a as *const [u8; 2]
a as dyn Fn(u8) -> u8
a as impl for<'q> Fn(&'q u8, u8) -> u8
a as &'static mut (u8, u16)
a as [u8; { 1 + 1 }]
a as <S as T<u8, u16>>::U
a as !
a as _
&raw mut a
&raw const a.b
&raw
#[allow(unused)] a
#[a(b, c = d)] #[e] f
const || 1
const { (1, 2) }
unsafe { a = b }
if a { b } else { c } = d
a!(b, c = d)
a![b, c = d].e
a! { b, c = d }
a::b!(c)
match a { b if c => d, e | f => g, _ => {} }.h
match a {}
while let Some(a) | None = b {}
for a in b..=c { d }
for (a, b) in |c, d| e {}
'q: { }
'q: while a {}
r#fn(1)
r#"a"#.len()
1.0.0
a.0.1.2
""".strip().split("\n")  # fmt: skip


def split(template, operands):
    """The token list of gen.py for a template: strings and operand tokens."""
    parts = template.replace("q1 @ ", "q1 \x00 ").split("@")
    out = []
    for i, p in enumerate(parts):
        if i:
            out += operands()
        out.append(p.replace("\x00", "@"))
    return [t for t in out if t != ""]


def text(template, n):
    """The same as source, with literal operands counted from n."""
    k = iter(range(n, n + 100))
    return "".join(split(template, lambda: [f"{next(k) % 39 + 1}i64"]))
