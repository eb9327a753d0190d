//! C21: generated safe programs over all allocators, compiled; the oracle is a model of which
//! borrows every handle carries.
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::process::Command;
use std::sync::atomic::{AtomicU32, Ordering};

use pbt::{ensure, Prop, Src, Sub, R};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[allow(clippy::upper_case_acronyms)]
enum K {
    // Owners of memory.
    Bump, UBump, BoxBump, Chain, Buf, Slot1, Arr, Stack,
    // The memory itself.
    MB, LbU, LbUS, Alloc, AllocRaw, UnV, UnS, Un0, View, ViewS, Slot,
    // Owning handles.
    Lb, LbS, WBox, WRc, WWeak, WVec,
    // Views.
    RefMut, Ref, PinMut, Drain, Iter, Dyn, DynBox,
    // The content, when it is a variable that others borrow; values without any borrow.
    Content, Value, Wrap,
}
use K::*;

/// How a value is used.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Acc { Shared, Mut, Move }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum By {
    /// The result holds a borrow of the parent.
    Borrow, BorrowMut,
    /// The parent is consumed.
    Into,
    /// Only what the parent itself borrows is passed on.
    Split, SplitMut,
}
use By::*;

struct D { from: K, to: K, by: By, expr: &'static str, content: bool, soft: bool }
macro_rules! d { ($($from:ident $by:ident $to:ident $e:literal $($c:ident)?;)*) => { &[$(D { from: $from, to: $to, by: $by, expr: $e, content: d!(@ $($c)?), soft: d!(% $($c)?) }),*] }; (% soft) => { true }; (% $($c:ident)?) => { false }; (@ soft) => { false }; (@ content) => { true }; (@) => { false } }
/// `$p`: the parent, `$V`: the type of the content, `$v`: a value of it.
const DERIVE: &[D] = d! {
    Bump Borrow RefMut "$p.leak($v).ok().unwrap()" content;
    Bump Borrow RefMut "$p.leak_at($v, $p.level()).ok().unwrap().0" content;
    Bump Borrow Lb "$p.leak_box($v).unwrap()" content;
    Bump Borrow Lb "$p.leak_box_at($v, $p.level()).ok().unwrap()" content;
    Bump Borrow Alloc "$p.get::<$V>().unwrap()";
    Bump Borrow Alloc "$p.get_at::<$V>($p.level()).ok().unwrap()";
    Bump Borrow AllocRaw "$p.get_layout(Layout::new::<u64>()).unwrap()";
    Bump Borrow AllocRaw "$p.get_layout_at(Layout::new::<u64>(), $p.level()).ok().unwrap()";
    Bump Borrow AllocRaw "$p.alloc_at(Layout::new::<u64>(), $p.level()).ok().unwrap()";
    Bump Borrow WBox "LocalAllocLeakExt::boxed(&$p, $v).unwrap()" content;
    Bump Borrow WRc "LocalAllocLeakExt::rc(&$p, $v).unwrap()" content;
    Bump Borrow WVec "{ let mut t = LocalAllocLeakExt::fixed_vec::<$V>(&$p, 4).unwrap(); t.push($v).ok(); t }" content;
    Bump Borrow UnV "LocalAllocLeakExt::alloc_t::<$V>(&$p).unwrap().uninit";
    Bump Borrow RefMut "LocalAllocLeakExt::copy_slice(&$p, &[1u8, 2]).unwrap()";
    Bump Borrow Ref "LocalAllocLeakExt::copy_str(&$p, \"text\").unwrap()";
    UBump Borrow LbU "$p.bump_box::<$V>().ok().unwrap()";
    UBump Borrow LbUS "$p.bump_array::<$V>(2).ok().unwrap()";
    UBump Borrow Alloc "$p.get::<$V>().unwrap()";
    UBump Borrow Alloc "$p.get_at::<$V>($p.level()).ok().unwrap()";
    BoxBump Borrow LbU "$p.bump_box::<$V>().ok().unwrap()";
    BoxBump Borrow LbUS "$p.bump_array::<$V>(2).ok().unwrap()";
    BoxBump Borrow Alloc "$p.get::<$V>().unwrap()";
    Chain Borrow LbU "$p.bump_box::<$V>().ok().unwrap()";
    Buf BorrowMut MB "MemBump::from_mem(&mut $p[..]).unwrap()";
    Buf BorrowMut LbUS "LeakBox::from(&mut $p[..])";
    Buf BorrowMut Un0 "Uninit::from(&mut $p[..]).as_memory()";
    Buf Borrow ViewS "UninitView::from(&$p[..])";
    Slot1 BorrowMut LbU "LeakBox::from(&mut $p)";
    Slot1 BorrowMut UnV "Uninit::from(&mut $p)";
    Slot1 BorrowMut UnV "Uninit::from_maybe_uninit(&mut $p)";
    Slot1 Borrow View "UninitView::from(&$p)";
    Slot1 Borrow View "UninitView::from_maybe_uninit(&$p)";
    Arr BorrowMut LbUS "LeakBox::from(&mut $p[..])";
    Arr BorrowMut UnS "Uninit::from(&mut $p[..])";
    Arr BorrowMut UnS "Uninit::from_maybe_uninit_slice(&mut $p[..])";
    Arr Borrow ViewS "UninitView::from_maybe_uninit_slice(&$p[..])";
    Arr BorrowMut WVec "{ let mut t = FixedVec::new(Uninit::from(&mut $p[..])); t.push($v).ok(); t }" content;
    Stack Borrow Slot "$p.as_ref().slot::<$V>().unwrap()";
    Stack BorrowMut PinMut "$p.as_mut().set([0; 32])";
    Slot Into PinMut "$p.pin($v)" content;
    MB Borrow LbU "$p.bump_box::<$V>().ok().unwrap()";
    MB Borrow LbUS "$p.bump_array::<$V>(2).ok().unwrap()";
    MB Borrow Alloc "$p.get::<$V>().unwrap()";
    MB Into RefMut "MemBump::into_mem($p)";
    LbU Into Lb "LeakBox::write($p, $v)" content;
    LbU BorrowMut RefMut "&mut *$p";
    LbUS BorrowMut RefMut "&mut $p[0]";
    Lb BorrowMut RefMut "&mut *$p";
    Lb BorrowMut RefMut "AsMut::as_mut(&mut $p)";
    Lb Borrow Ref "&*$p";
    Lb Borrow Ref "AsRef::as_ref(&$p)";
    Lb Into RefMut "LeakBox::leak($p)";
    UnV Into WBox "WaBox::new($v, $p)" content;
    UnV Into WBox "$p.into_box($v)" content;
    UnV Into RefMut "$p.init($v)" content;
    UnV Into RefMut "$p.into_maybe_uninit()";
    UnV BorrowMut UnV "$p.borrow_mut()";
    UnV Borrow View "$p.borrow()";
    UnV Into Un0 "$p.as_memory()";
    UnV SplitMut Un0 "$p.split_to_fit()";
    UnV SplitMut Un0 "$p.split_at_byte(64).unwrap()";
    View Into Ref "$p.into_maybe_uninit()";
    View Borrow View "$p.borrow()" soft;
    View Borrow View "UninitView::borrow(&$p)" soft;
    ViewS Into Ref "$p.into_maybe_uninit_slice()";
    UnS Into WVec "{ let mut t = FixedVec::new($p); t.push($v).ok(); t }" content;
    UnS Into RefMut "$p.into_maybe_uninit_slice()";
    UnS SplitMut UnV "$p.split_first().unwrap()";
    UnS SplitMut UnV "$p.split_last().unwrap()";
    UnS SplitMut UnS "$p.split_at(1).unwrap()";
    UnS SplitMut Un0 "$p.shrink_to_fit()";
    UnS BorrowMut UnS "$p.borrow_mut()";
    UnS Borrow ViewS "$p.borrow()";
    Un0 Into UnV "$p.cast::<$V>().ok().unwrap()";
    Un0 Into UnS "$p.cast_slice::<$V>().ok().unwrap()";
    Un0 SplitMut UnV "$p.split_cast::<$V>().unwrap()";
    Un0 SplitMut UnS "$p.split_slice::<$V>().unwrap()";
    Un0 SplitMut Un0 "$p.split_layout(Layout::new::<u64>().into()).unwrap()";
    Un0 Into WRc "WaRc::new($v, $p)" content;
    Un0 Into WVec "{ let mut t = FixedVec::from_unaligned($p); t.push($v).ok(); t }" content;
    WBox BorrowMut RefMut "&mut *$p";
    WBox BorrowMut RefMut "AsMut::as_mut(&mut $p)";
    WBox Borrow Ref "&*$p";
    WBox Borrow Ref "AsRef::as_ref(&$p)";
    WBox Into RefMut "WaBox::leak($p)";
    WBox Into UnV "WaBox::into_raw($p)";
    WBox Into UnV "WaBox::take($p).1";
    WBox Into DynBox "unsize_registry::CoerceUnsize::unsize($p, unsize_registry::Coercion!(to dyn Debug))";
    WRc Split WRc "$p.clone()";
    WRc Split WWeak "WaRc::downgrade(&$p)";
    WRc Borrow Ref "&*$p";
    WRc Borrow Ref "AsRef::as_ref(&$p)";
    WRc BorrowMut RefMut "WaRc::get_mut(&mut $p).unwrap()";
    WRc Into WWeak "WaRc::try_unwrap($p).ok().unwrap().1";
    WRc Into UnV "WaRc::into_raw($p).ok().unwrap()";
    WWeak Split WRc "$p.upgrade().unwrap()";
    WWeak Split WWeak "$p.clone()";
    WWeak Into Un0 "$p.try_unwrap().ok().unwrap()";
    WVec BorrowMut RefMut "$p.as_mut_slice()";
    WVec BorrowMut RefMut "&mut $p[0]";
    WVec BorrowMut RefMut "&mut *$p";
    WVec BorrowMut RefMut "AsMut::<[_]>::as_mut(&mut $p)";
    WVec BorrowMut RefMut "$p.iter_mut().next().unwrap()";
    WVec Borrow Ref "$p.as_slice()";
    WVec Borrow Ref "&$p[..]";
    WVec Borrow Ref "AsRef::<[_]>::as_ref(&$p)";
    WVec Borrow Iter "$p.iter()";
    WVec BorrowMut Drain "$p.drain(..)";
    WVec BorrowMut WVec "{ let mut t = $p.split_borrowed(0); t.push($v).ok(); t }" content;
    WVec SplitMut WVec "{ let mut t = $p.split_and_shrink_to(0); t.push($v).ok(); t }" content;
    WVec SplitMut Un0 "$p.shrink_to_fit()";
    Drain BorrowMut RefMut "&mut $p";
    RefMut Into Wrap "Box::new($p)";
    Ref Into Wrap "Box::new($p)";
    Lb Into Wrap "vec![$p]";
    Lb Into Wrap "Some($p)";
    Lb Into Wrap "move || touch(&$p)";
    WBox Into Wrap "($p, 1)";
    WBox Into Wrap "move || touch(&$p)";
    WRc Into Wrap "vec![$p]";
    WVec Into Wrap "[$p]";
    WVec Into Wrap "move || $p.len()";
    RefMut Into Wrap "move || touch(&$p)";
    PinMut Into Wrap "Box::new($p)";
};
struct A { on: K, acc: Acc, stmt: &'static str, content: bool }
macro_rules! a { ($($on:ident $acc:ident $s:literal $($c:ident)?;)*) => { &[$(A { on: $on, acc: Acc::$acc, stmt: $s, content: d!(@ $($c)?) }),*] } }
const ACT: &[A] = a! {
    Bump Shared "$p.level();";
    Bump Shared "let _ = $p.leak(1u32);";
    Bump Shared "let _ = $p.alloc(Layout::new::<u32>());";
    Bump Mut "$p.reset();";
    Bump Mut "$p = Bump::uninit();";
    UBump Shared "$p.level();";
    UBump Shared "let _ = $p.bump_box::<u32>();";
    UBump Mut "$p.reset();";
    UBump Mut "$p = UBump::uninit();";
    BoxBump Shared "$p.capacity();";
    BoxBump Mut "$p.reset();";
    Chain Shared "$p.remaining_capacity();";
    Chain Shared "$p.chain(Chain::new(64).unwrap());";
    Chain Mut "$p = Chain::new(64).unwrap();";
    Buf Shared "touch(&$p[0]);";
    Buf Mut "$p[0] = MaybeUninit::new(1);";
    Slot1 Shared "$p.as_ptr();";
    Slot1 Mut "$p.as_mut_ptr();";
    Arr Shared "$p.len();";
    Arr Mut "$p.swap(0, 1);";
    Stack Shared "let _ = $p.as_ref().slot::<u32>();";
    Stack Mut "$p.as_mut().pop_all();";
    Stack Mut "$p.as_mut().set([1; 32]);";
    MB Shared "$p.level();";
    MB Shared "let _ = $p.bump_box::<u32>();";
    MB Mut "$p.reset();";
    Lb Shared "touch(&*$p);";
    Lb Mut "touch_mut(&mut *$p);";
    LbU Mut "touch_mut(&mut *$p);";
    UnV Shared "$p.size();";
    UnS Shared "$p.capacity();";
    UnS Mut "let _ = $p.split_last();";
    Un0 Shared "$p.byte_capacity();";
    Un0 Mut "let _ = $p.split_at_byte(1);";
    WBox Shared "touch(&*$p);";
    WBox Mut "touch_mut(&mut *$p);";
    WRc Shared "WaRc::strong_count(&$p);";
    WRc Shared "let _ = $p.clone();";
    WRc Shared "let _ = WaRc::downgrade(&$p);";
    WRc Mut "let _ = WaRc::get_mut(&mut $p);";
    WWeak Shared "$p.strong_count();";
    WVec Shared "$p.len();";
    WVec Shared "touch(&$p[0]);";
    WVec Mut "$p.clear();";
    WVec Mut "$p.pop();";
    WVec Mut "$p.truncate(1);";
    WVec Mut "$p.drain(..);";
    WVec Mut "$p[0] = $v;" content;
    WVec Mut "let _ = $p.push($v);" content;
    WVec Mut "$p.extend(Some($v));" content;
    WVec Mut "let _ = $p.split_borrowed(0);";
    WVec Mut "let _ = $p.shrink_to_fit();";
    Drain Mut "let _ = $p.next();";
    Slot Shared "touch(&$p);";
    Content Shared "touch(&$p);";
    Content Mut "touch_mut(&mut $p);";
    Content Mut "$p = String::new();";
};

/// What is put into the memory.
#[derive(Clone, Copy, PartialEq)]
enum C { Plain, Str, NoSend, NoSync, Held }
impl C {
    fn ty(self) -> &'static str { match self { C::Plain => "u32", C::Str => "String", C::NoSend => "StdRc<u8>", C::NoSync => "Cell<u8>", C::Held => "Held<'_>" } }
    fn val(self) -> &'static str { match self { C::Plain => "5", C::Str => "String::new()", C::NoSend => "StdRc::new(1)", C::NoSync => "Cell::new(1)", C::Held => "Held(&x)" } }
}
fn copies(k: K) -> bool { matches!(k, Ref | View | ViewS | Dyn) }
/// May be of a type that is copied; not held against a program.
fn may_copy(k: K) -> bool { matches!(k, Alloc | AllocRaw | Buf | Slot1 | Arr) }
/// Whether the end of such a value's scope uses it.
fn drops(k: K) -> bool { matches!(k, MB | LbU | LbUS | Lb | LbS | WBox | WRc | WWeak | WVec | Drain | Slot | DynBox) }
/// Handles through which the content can be reached.
fn reaches(k: K) -> bool { matches!(k, Lb | WBox | WRc | WWeak | WVec | RefMut | Ref | PinMut | Drain | Iter | DynBox) }

struct Var { name: String, k: K, loans: Vec<(usize, Acc)>, alive: bool, killed: bool, drops: bool, content: bool, source: bool, block: bool, pure: bool, depth: usize, outer: bool, unsure: Vec<usize> }
#[derive(Default)]
struct Prog { vars: Vec<Var>, out: String, depth: usize, blocks: Vec<usize>, closing: bool, sparing: bool, crime: Option<&'static str>, want: bool, pending: Option<(usize, usize)>, done: bool }

impl Prog {
    fn stmt(&mut self, s: &str) { for _ in 0..=self.depth { self.out.push_str("    "); } self.out.push_str(s); self.out.push('\n'); }
    fn name(&self, v: usize) -> String { self.vars[v].name.clone() }
    fn usable(&self, v: usize) -> bool { self.vars[v].alive && !self.vars[v].killed }
    /// The handles that an access to `v` makes unusable.
    fn hit(&self, v: usize, acc: Acc) -> Vec<usize> {
        (0..self.vars.len()).filter(|&h| h != v && self.usable(h) && self.vars[h].loans.iter().any(|&(u, l)| u == v && (l == Acc::Mut || acc != Acc::Shared))).collect()
    }
    fn is_leaf(&self, v: usize) -> bool { !(0..self.vars.len()).any(|h| self.usable(h) && self.vars[h].loans.iter().any(|l| l.0 == v)) }
    /// Make an access to `v` legal, or, once, the reason to reject the program.
    fn access(&mut self, g: &mut Src, v: usize, acc: Acc) {
        let acc = if acc == Acc::Move && !self.closing && copies(self.vars[v].k) { Acc::Shared } else { acc };
        let hit = self.hit(v, acc);
        let mut spared = None;
        if self.want && self.crime.is_none() && !hit.is_empty() && (acc != Acc::Move || self.closing || !may_copy(self.vars[v].k)) {
            let leaves: Vec<usize> = hit.iter().copied().filter(|&h| self.is_leaf(h) && !self.vars[h].unsure.contains(&v)).collect();
            if !leaves.is_empty() && g.chance(2, 3) {
                let h = leaves[g.upto(leaves.len() as u64 - 1) as usize];
                spared = Some(h);
                self.crime = Some("a handle used after a conflicting access");
                self.sparing = true;
                let s = format!("// {} is kept beyond an access to {}", self.name(h), self.name(v));
                self.stmt(&s);
            }
        }
        // Younger handles first: they may hold on to older ones.
        for h in hit.into_iter().rev() {
            if Some(h) == spared || !self.usable(h) { continue; }
            // What the spared one was made from goes unused from here on.
            if spared.is_some_and(|s| self.vars[s].loans.iter().any(|l| l.0 == h)) { self.vars[h].killed = true; continue; }
            if !self.closing && (self.vars[h].drops || g.chance(1, 2)) { self.consume(g, h); }
            self.vars[h].killed = true;
        }
        if let Some(h) = spared {
            self.vars[h].killed = true;
            self.sparing = false;
            self.pending = Some((h, g.upto(2) as usize));
        }
        if acc == Acc::Move { self.vars[v].alive = false; }
    }
    /// The content will be borrowed again: the next statement need not do so if this was no obstacle.
    fn name_content(&mut self, g: &mut Src, x: usize) {
        let before = self.pending;
        self.access(g, x, Acc::Shared);
        if self.pending != before { self.stmt("touch(&x);"); }
    }
    fn consume(&mut self, g: &mut Src, v: usize) {
        if !self.sparing && self.blocks.last() == Some(&v) && g.chance(2, 3) { return self.close(g); }
        self.access(g, v, Acc::Move);
        let n = self.name(v);
        let s = match g.upto(2) { 0 => format!("drop({n});"), 1 => format!("consume({n});"), _ => format!("let _moved = {n};") };
        // A moved copy lives on to the end of the block.
        let s = if s.starts_with("let") { format!("{{ {s} }}") } else { s };
        self.stmt(&s);
        if !copies(self.vars[v].k) { self.vars[v].alive = false; }
    }
    /// The end of the innermost block is the end of everything declared in it.
    fn close(&mut self, g: &mut Src) {
        self.pending(g, true);
        for v in (0..self.vars.len()).rev() {
            if self.vars[v].depth != self.depth { continue; }
            self.closing = true;
            if self.usable(v) { self.access(g, v, Acc::Move); }
            self.closing = false;
            self.vars[v].alive = false;
        }
        self.blocks.pop();
        self.depth -= 1;
        self.stmt("}");
        // A handle that was declared further out.
        self.pending(g, self.blocks.is_empty());
    }
    fn pending(&mut self, g: &mut Src, last: bool) {
        let Some((h, how)) = self.pending else { return };
        if !last && !g.chance(1, 3) { return; }
        self.pending = None;
        let n = self.name(h);
        // Left to the end of the function.
        if how == 0 && self.vars[h].drops { return; }
        if how == 1 { self.stmt(&format!("touch(&{n});")); } else { self.stmt(&format!("consume({n});")); }
        // No further trace of it.
        if how == 1 && self.vars[h].drops { return; }
    }
    fn fill_in(&self, s: &str, p: &str, c: C) -> String { s.replace("$p", p).replace("$V", c.ty()).replace("$v", c.val()) }
    fn var(&mut self, k: K, name: String, loans: Vec<(usize, Acc)>) -> usize {
        self.vars.push(Var { name, k, loans, alive: true, killed: false, drops: drops(k), content: false, source: false, block: false, pure: false, depth: self.depth, outer: false, unsure: vec![] });
        self.vars.len() - 1
    }
}

/// One program: its body and why it must be rejected, if it must.
fn program(g: &mut Src) -> (String, Option<&'static str>) {
    let c = [C::Plain, C::Str, C::NoSend, C::NoSync, C::Held][g.weighted(&[1, 4, 2, 1, 3])];
    let mut p = Prog { want: g.chance(3, 5), ..Default::default() };
    // What lives to the end of the function comes first, then the handles, then the blocks.
    let mut x = None;
    let in_block = c == C::Held && g.chance(1, 2);
    let mut plan: Vec<(K, bool)> = vec![];
    if c == C::Held { plan.push((Content, in_block)); }
    for _ in 0..1 + g.upto(1) {
        let k = g.pick(&[Bump, Bump, UBump, BoxBump, Chain, Buf, Slot1, Arr, Stack]);
        // What must live for 'static does not take borrowed content.
        if k == Stack && c == C::Held { continue; }
        plan.push((k, g.chance(1, 3) || (in_block && matches!(k, Slot1 | Arr))));
    }
    plan.sort_by_key(|s| s.1);
    let mut blocks_from = None;
    for (k, block) in plan {
        if block && blocks_from.is_none() { blocks_from = Some(p.out.len()); }
        let n = if k == Content { "x".to_string() } else { format!("s{}", p.vars.len()) };
        let init = match k {
            Bump => "Bump::<[u64; 32]>::uninit()", UBump => "UBump::<[u64; 32]>::uninit()", BoxBump => "MemBump::new(256)", Chain => "Chain::new(256).unwrap()",
            Buf => "[MaybeUninit::<u8>::uninit(); 256]", Slot1 => "MaybeUninit::<$V>::new($v)", Arr => "[MaybeUninit::<$V>::new($v), MaybeUninit::<$V>::new($v)]",
            Content => "String::new()",
            _ => "Box::pin(ExitStack::<[u64; 32]>::new())",
        };
        if block { p.stmt("{"); p.depth += 1; }
        let s = p.fill_in(&format!("let mut {n} = {init};"), "", c);
        p.stmt(&s);
        let typed = matches!(k, Slot1 | Arr);
        let v = p.var(k, n, if typed { x.iter().map(|x| (*x, Acc::Shared)).collect() } else { vec![] });
        if k == Content { x = Some(v); }
        p.vars[v].source = true;
        p.vars[v].block = block;
        p.vars[v].content = typed;
        if block { p.blocks.push(v); }
    }
    let blocks_from = blocks_from.unwrap_or(p.out.len());
    let total = 4 + g.upto(12) as usize;
    let mut n_handles = 0;
    for _ in 0..total {
        if p.done { break; }
        let usable: Vec<usize> = (0..p.vars.len()).filter(|&v| p.usable(v)).collect();
        if usable.is_empty() { break; }
        match g.weighted(&[8, 6, 2, 1, 1, 1]) {
            0 => {
                // A new handle, most often from the newest.
                let v = if g.bool() { usable[usable.len() - 1] } else { usable[g.upto(usable.len() as u64 - 1) as usize] };
                let k = p.vars[v].k;
                let ways: Vec<&D> = DERIVE.iter().filter(|d| d.from == k && (d.to != Slot || c != C::Held) && !(d.soft && p.want)).collect();
                if ways.is_empty() { continue; }
                let d = ways[g.upto(ways.len() as u64 - 1) as usize];
                // The wrappers of views of anything are views of it.
                if d.to == DynBox && !p.vars[v].pure { continue; }
                let acc = match d.by { Borrow | Split => Acc::Shared, BorrowMut | SplitMut => Acc::Mut, Into => Acc::Move };
                // The content is named by the expression.
                if d.content { if let Some(x) = x { if !p.usable(x) { continue; } p.name_content(g, x); if !p.usable(v) { continue; } } }
                p.access(g, v, acc);
                let mut loans = p.vars[v].loans.clone();
                match d.by { Borrow => loans.push((v, Acc::Shared)), BorrowMut => loans.push((v, Acc::Mut)), _ => {} }
                if d.content { if let Some(x) = x { if !loans.iter().any(|l| l.0 == x) { loans.push((x, Acc::Shared)); } } }
                let n = format!("v{}", p.vars.len());
                let e = p.fill_in(d.expr, &p.vars[v].name, c);
                let drops = if d.to == Wrap { p.vars[v].drops } else { drops(d.to) };
                // Memory that once was, or will be, for borrowed content.
                let mut unsure = p.vars[v].unsure.clone();
                if let Some(x) = x {
                    unsure.retain(|u| !d.content || *u != x);
                    let had = loans.iter().any(|l| l.0 == x);
                    if !had { loans.push((x, Acc::Shared)); }
                    if (!had || d.to == Un0) && !unsure.contains(&x) { unsure.push(x); }
                }
                // Anything that looks at what it borrows when dropped has to be declared after that.
                let mut outer = p.depth > 0 && g.chance(2, 3);
                if outer && drops && loans.iter().any(|&(u, _)| p.vars[u].depth > 0) {
                    if p.want && p.crime.is_none() && loans.iter().any(|&(u, _)| p.vars[u].depth > 0 && !unsure.contains(&u)) { p.crime = Some("a handle dropped after what it borrows"); p.done = true; } else { outer = false; }
                }
                p.stmt(&if outer { format!("{n} = {e};") } else { format!("let mut {n} = {e};") });
                let (was_drops, had_content) = (p.vars[v].drops, p.vars[v].content);
                let h = p.var(d.to, n, loans);
                if outer { p.vars[h].outer = true; p.vars[h].depth = 0; }
                p.vars[h].content = d.content || had_content;
                p.vars[h].unsure = unsure;
                p.vars[h].pure = (d.to == WBox || d.to == Lb) && d.content;
                if d.to == Wrap { p.vars[h].drops = was_drops; }
                n_handles += 1;
            }
            1 => {
                let v = usable[g.upto(usable.len() as u64 - 1) as usize];
                let k = p.vars[v].k;
                let ways: Vec<&A> = ACT.iter().filter(|a| a.on == k).collect();
                let (acc, s, content) = if ways.is_empty() || g.chance(1, 4) {
                    if g.bool() { (Acc::Shared, "touch(&$p);", false) } else { (Acc::Mut, "touch_mut(&mut $p);", false) }
                } else { let a = ways[g.upto(ways.len() as u64 - 1) as usize]; (a.acc, a.stmt, a.content) };
                if content { if let Some(x) = x { if !p.usable(x) || !p.vars[v].loans.iter().any(|l| l.0 == x) { continue; } p.name_content(g, x); if !p.usable(v) { continue; } } }
                p.access(g, v, acc);
                let s = p.fill_in(s, &p.vars[v].name, c);
                let s = if g.chance(1, 6) { format!("if flag() {{ {s} }}") } else { s };
                p.stmt(&s);
            }
            2 => {
                let v = usable[g.upto(usable.len() as u64 - 1) as usize];
                if p.vars[v].source && !g.chance(1, 2) { continue; }
                p.consume(g, v);
            }
            3 => {
                // Leaves the function or thread: only what borrows nothing.
                let v = usable[g.upto(usable.len() as u64 - 1) as usize];
                let n = p.name(v);
                let bound = p.vars[v].loans.iter().any(|l| !p.vars[v].unsure.contains(&l.0));
                if !bound && !p.vars[v].loans.is_empty() { continue; }
                let pin = p.vars[v].k == Lb && g.chance(2, 3);
                if bound {
                    if !p.want || p.crime.is_some() || p.blocks.contains(&v) { continue; }
                    p.crime = Some("borrowed memory used for 'static");
                    // It is the only thing wrong with the program.
                    p.access(g, v, Acc::Move);
                } else { p.access(g, v, Acc::Move); }
                p.stmt(&if pin { format!("consume(LeakBox::into_pin({n}));") } else { format!("need_static({n});") });
                p.vars[v].alive = copies(p.vars[v].k) && p.vars[v].alive && !bound;
            }
            4 => {
                // Moved-out variables.
                let moved: Vec<usize> = (0..p.vars.len()).filter(|&v| !p.vars[v].alive && !p.vars[v].killed && !p.vars[v].block && p.vars[v].depth <= p.depth && !copies(p.vars[v].k) && !may_copy(p.vars[v].k)).collect();
                if moved.is_empty() || !p.want || p.crime.is_some() { continue; }
                let n = p.name(moved[g.upto(moved.len() as u64 - 1) as usize]);
                p.crime = Some("a value used after it was consumed");
                p.stmt(&format!("touch(&{n});"));
            }
            _ => {
                // Threads.
                let v = usable[g.upto(usable.len() as u64 - 1) as usize];
                let (k, n) = (p.vars[v].k, p.name(v));
                let (mut no_send, mut no_sync) = match k {
                    WRc | WWeak => (true, true),
                    UBump | BoxBump | MB => (false, true),
                    Chain | Slot | Stack => (k != Chain, true),
                    _ => (false, false),
                };
                let reach = reaches(k) && p.vars[v].pure;
                if reach { no_send |= c == C::NoSend || (c == C::NoSync && matches!(k, Ref | Iter)); no_sync |= c == C::NoSend || c == C::NoSync; }
                let sync = g.bool();
                let f = if sync { "need_sync" } else { "need_send" };
                if if sync { no_sync } else { no_send } {
                    if !p.want || p.crime.is_some() { continue; }
                    if !p.hit(v, Acc::Shared).is_empty() { continue; }
                    p.crime = Some("content that is bound to its thread sent to another");
                    p.stmt(&format!("{f}(&{n});"));
                } else if k == Bump {
                    p.access(g, v, Acc::Shared);
                    p.stmt(&format!("{f}(&{n});"));
                }
            }
        }
        // A view of content is as bound as the content.
        for i in 0..p.vars.len() { if matches!(p.vars[i].k, RefMut | Ref | WRc | WWeak | WVec | PinMut | Iter | Drain) && p.vars[i].content { p.vars[i].pure = p.vars[i].pure || matches!(p.vars[i].k, WRc | WWeak | WVec | Iter | Drain); } }
        p.pending(g, false);
    }
    p.pending(g, true);
    // The end: blocks, then everything left, or left to the end of the function.
    if p.done { while p.depth > 0 { p.depth -= 1; p.stmt("}"); } }
    while !p.blocks.is_empty() && !p.done { p.close(g); }
    p.pending(g, true);
    for v in (0..p.vars.len()).rev() {
        if p.done || !p.usable(v) || g.chance(1, 3) { continue; }
        p.want = false;
        p.consume(g, v);
    }
    let mut decl = String::new();
    for v in &p.vars { if v.outer { let _ = write!(decl, "let mut {}; ", v.name); } }
    if n_handles > 1 { g.label_if(p.crime.is_none(), "accepted"); }
    p.out.insert_str(blocks_from, &format!("    {decl}\n"));
    (p.out, p.crime)
}

/// Fixed programs in pairs: must be rejected, must be accepted.
/// Places over memory, and what can be had from them that holds on to that memory.
const PLACES: &[(&str, &[&str])] = &[
    ("let m = MaybeUninit::<u32>::uninit(); let mut v = UninitView::from(&m);", VIEW),
    ("let m = MaybeUninit::<u32>::uninit(); let mut v = UninitView::from_maybe_uninit(&m);", VIEW),
    ("let mut m = MaybeUninit::<u32>::uninit(); let mut v = UninitView::from(Uninit::from(&mut m));", VIEW),
    ("let mut m = MaybeUninit::<u32>::uninit(); let mut u = Uninit::from(&mut m); let mut v = u.borrow();", VIEW),
    ("let m = [MaybeUninit::<u32>::uninit(); 4]; let mut v = UninitView::from(&m[..]);", VIEWS),
    ("let m = [MaybeUninit::<u32>::uninit(); 4]; let mut v = UninitView::from_maybe_uninit_slice(&m);", VIEWS),
    ("let m = MaybeUninit::<[u32; 4]>::uninit(); let mut v = UninitView::from(&m).cast_slice::<u32>().ok().unwrap();", VIEWS),
    ("let m = MaybeUninit::<u64>::uninit(); let mut v = UninitView::from(&m).cast::<()>().ok().unwrap();", VIEW0),
    ("let mut m = MaybeUninit::<u64>::uninit(); let mut v = Uninit::from(&mut m);", PLACE),
    ("let mut m = MaybeUninit::<u64>::uninit(); let mut v = Uninit::from_maybe_uninit(&mut m);", PLACE),
    ("let m = MaybeUninit::<u64>::uninit(); let mut v = unsafe { Uninit::from_view(UninitView::from(&m)) };", PLACE),
    ("let mut m = [MaybeUninit::<u64>::uninit(); 4]; let mut v = Uninit::from(&mut m[..]);", PLACES_),
    ("let mut m = [MaybeUninit::<u64>::uninit(); 4]; let mut v = Uninit::from_maybe_uninit_slice(&mut m);", PLACES_),
    ("let mut m = MaybeUninit::<[u64; 4]>::uninit(); let mut v = Uninit::from(&mut m).as_memory();", PLACE0),
    ("let b = Bump::<[u64; 8]>::uninit(); let mut v = LocalAllocLeakExt::alloc_layout(&b, NonZeroLayout::new::<u64>().unwrap()).unwrap().uninit;", PLACE0),
    ("let b = Bump::<[u64; 8]>::uninit(); let mut v = LocalAllocLeakExt::alloc_t::<u64>(&b).unwrap().uninit;", PLACE),
    ("let mut m = MaybeUninit::<[usize; 4]>::uninit(); let v = WaRc::new(1u32, Uninit::from(&mut m).as_memory());", &["v", "v.clone()", "WaRc::into_raw(v)", "WaRc::try_unwrap(v)", "WaRc::downgrade(&v)", "WaRc::downgrade(&v).upgrade()", "WaRc::downgrade(&v).clone()", "WaRc::downgrade(&v).try_unwrap()"]),
    ("let b = Bump::<[u64; 8]>::uninit(); let v = LocalAllocLeakExt::rc(&b, 1u32).unwrap();", &["v", "v.clone()", "WaRc::into_raw(v)", "WaRc::try_unwrap(v)", "WaRc::downgrade(&v)", "WaRc::downgrade(&v).upgrade()", "WaRc::downgrade(&v).clone()", "WaRc::downgrade(&v).try_unwrap()"]),
    ("let b = Bump::<[u64; 8]>::uninit();", &["LocalAlloc::alloc(&b, NonZeroLayout::new::<u64>().unwrap())", "LocalAlloc::alloc_zeroed(&b, NonZeroLayout::new::<u64>().unwrap())", "LocalAllocLeakExt::alloc_layout(&b, NonZeroLayout::new::<u64>().unwrap())", "LocalAllocLeakExt::alloc_t::<u64>(&b)", "LocalAllocLeakExt::boxed(&b, 1u8)", "LocalAllocLeakExt::fixed_vec::<u8>(&b, 1)", "LocalAllocLeakExt::rc(&b, 1u8)", "LocalAllocLeakExt::copy_slice(&b, &[1u8])", "LocalAllocLeakExt::copy_str(&b, \"a\")", "b.get::<u8>()", "b.get_layout(Layout::new::<u8>())", "b.get_at::<u8>(b.level())", "b.leak(1u8).ok()", "b.leak_at(1u8, b.level()).ok()", "b.leak_box(1u8)", "b.leak_box_at(1u8, b.level()).ok()"]),
    ("let b = UBump::<[u64; 8]>::uninit();", &["b.get::<u8>()", "b.get_at::<u8>(b.level())", "unsafe { b.get_unchecked::<u8>(b.level()) }", "b.bump_box::<u8>()", "b.bump_array::<u8>(2)", "&*b"]),
    ("let b = Chain::new(64).unwrap();", &["b.bump_box::<u8>()"]),
    ("let b = MemBump::new(64);", &["&*b", "b.get::<u8>()", "b.bump_box::<u8>()", "b.bump_array::<u8>(2)"]),
    ("let mut s = [MaybeUninit::uninit(); 64]; let b = MemBump::from_mem(&mut s).unwrap();", &["b", "&*b", "b.get::<u8>()", "b.bump_box::<u8>()", "b.bump_array::<u8>(2)", "MemBump::into_mem(b)"]),
];
const VIEW: &[&str] = &["v", "v.split_at_byte(1)", "v.cast::<u8>()", "v.cast_slice::<u8>()", "v.split_to_fit()", "v.into_maybe_uninit()", "unsafe { v.as_ref() }", "unsafe { v.into_ref() }", "v.borrow()", "v.clone()", "{ let w = v; w }", "v.cast::<()>().ok().unwrap().split_layout(Layout::new::<u8>())", "v.cast::<()>().ok().unwrap().split_cast::<u8>()", "v.cast::<()>().ok().unwrap().split_slice::<u8>()"];
const VIEW0: &[&str] = &["v", "v.split_layout(Layout::new::<u8>())", "v.split_cast::<u8>()", "v.split_slice::<u8>()", "v.split_at_byte(1)", "v.cast::<u8>()", "v.cast_slice::<u8>()", "v.split_to_fit()", "v.borrow()"];
const VIEWS: &[&str] = &["v", "v.split_at(1)", "v.shrink_to_fit()", "v.split_first()", "v.split_last()", "v.into_maybe_uninit_slice()", "unsafe { v.as_ref() }", "unsafe { v.into_ref() }", "v.borrow()", "v.clone()"];
const PLACE: &[&str] = &["v", "v.split_at_byte(1)", "v.cast::<u8>()", "v.cast_slice::<u8>()", "v.split_to_fit()", "v.into_maybe_uninit()", "unsafe { v.as_ref() }", "unsafe { v.as_mut() }", "unsafe { v.into_ref() }", "unsafe { v.into_mut() }", "v.borrow()", "v.borrow_mut()", "v.init(1)", "v.into_box(1)", "v.as_memory()", "UninitView::from(v)", "WaBox::new(1, v)", "unsafe { WaBox::from_raw(v) }", "WaBox::into_raw(WaBox::new(1, v))", "WaBox::take(WaBox::new(1, v)).1", "WaBox::leak(WaBox::new(1, v))", "FixedVec::<u8>::from_unaligned(v)"];
const PLACE0: &[&str] = &["v", "v.split_layout(Layout::new::<u8>())", "v.split_cast::<u8>()", "v.split_slice::<u8>()", "v.split_at_byte(1)", "v.cast::<u8>()", "v.cast_slice::<u8>()", "v.split_to_fit()", "v.borrow()", "v.borrow_mut()", "v.as_memory()", "FixedVec::<u8>::from_unaligned(v)", "v.cast::<u8>().map(|v| v.init(1)).ok()"];
const PLACES_: &[&str] = &["v", "v.split_at(1)", "v.shrink_to_fit()", "v.split_first()", "v.split_last()", "v.into_maybe_uninit_slice()", "unsafe { v.as_ref() }", "unsafe { v.as_mut() }", "unsafe { v.into_ref() }", "unsafe { v.into_mut() }", "v.borrow()", "v.borrow_mut()", "v.as_memory()", "FixedVec::new(v)", "FixedVec::new(v).shrink_to_fit()", "FixedVec::new(v).split_and_shrink_to(0)"];
const PAIRS: &[(&str, &str)] = &[
    // Memory of the stack frame of `Alloca`.
    ("let mut out = None; Alloca::<u64>::new(4).unwrap().run(|s| out = Some(s)); touch(&out);", "let mut out = None; Alloca::<u64>::new(4).unwrap().run(|s| out = Some(s.len())); touch(&out);"),
    ("let s = Alloca::<u64>::new(4).unwrap().run(|s| s); touch(&s);", "let s = Alloca::<u64>::new(4).unwrap().run(|s| s.len()); touch(&s);"),
    ("let b = Alloca::<u64>::new(4).unwrap().run(|s| MemBump::from_mem(&mut []).unwrap().bump_box::<u8>().ok()); touch(&b);", "Alloca::<u64>::new(4).unwrap().run(|s| touch(&MemBump::from_mem(&mut []).unwrap().bump_box::<u8>().ok()));"),
    ("let b = Alloca::<String>::new(4).unwrap().run(|s| LeakBox::from(&mut s[0])); touch(&b);", "Alloca::<String>::new(4).unwrap().run(|s| touch(&LeakBox::from(&mut s[0])));"),
    // Values of an exit stack are pinned, so it must not be possible to move it.
    ("let s = ExitStack::<[u8; 4]>::new(); touch(&Pin::new(&s).slot::<u8>().unwrap().pin(1));", "let s = std::pin::pin!(ExitStack::<[u8; 4]>::new()); touch(&s.as_ref().slot::<u8>().unwrap().pin(1));"),
    ("need_unpin::<ExitStack<u32>>();", "need_unpin::<u32>();"),
    ("let s = std::pin::pin!(ExitStack::<u32>::new()); let x = String::new(); touch(&s.as_ref().slot().unwrap().pin(Held(&x)));", "let s = std::pin::pin!(ExitStack::<u32>::new()); let x = String::new(); touch(&s.as_ref().slot().unwrap().pin(x));"),
    ("let x = String::new(); let s = std::pin::pin!(ExitStack::<Held>::new()); touch(&s.set(Held(&x)));", "let x = String::new(); let s = std::pin::pin!(ExitStack::<String>::new()); touch(&s.set(x));"),
    ("let mut v = None; { let s = std::pin::pin!(ExitStack::<u32>::new()); v = Some(s.set(1)); } touch(&v);", "let mut v = None; { let s = std::pin::pin!(ExitStack::<u32>::new()); v = Some(s.set(1)); touch(&v); }"),
    // Owning what something else owns.
    ("let mut s = String::new(); touch(&LeakBox::from_mut(&mut s));", "let mut s = 1u32; touch(&LeakBox::from_mut(&mut s));"),
    ("let mut s = 1u32; let b = LeakBox::from_mut(&mut s); s = 2; touch(&b);", "let mut s = 1u32; let b = LeakBox::from_mut(&mut s); touch(&b); drop(b); s = 2;"),
    // A value moved into a slot cannot be used.
    ("let b = Bump::<[u64; 8]>::uninit(); let s = String::new(); touch(&b.leak_box(s)); touch(&s);", "let b = Bump::<[u64; 8]>::uninit(); let s = String::new(); touch(&s); touch(&b.leak_box(s));"),
    // What lives forever.
    ("let b = Bump::<[u64; 8]>::uninit(); touch(&LeakBox::into_pin(b.leak_box(1u32).unwrap()));", "static B: Bump<[u64; 8]> = Bump::uninit(); touch(&LeakBox::into_pin(B.leak_box(1u32).unwrap()));"),
    ("static B: Bump<[u64; 8]> = Bump::uninit(); let x = String::new(); touch(&LeakBox::into_pin(B.leak_box(Held(&x)).unwrap()));", "static B: Bump<[u64; 8]> = Bump::uninit(); let x = String::new(); touch(&LeakBox::into_pin(B.leak_box(x).unwrap()));"),
    ("static B: Bump<[u64; 8]> = Bump::uninit(); let x = String::new(); need_static(B.leak(&x).ok());", "static B: Bump<[u64; 8]> = Bump::uninit(); let x = String::new(); need_static(B.leak(x).ok());"),
    ("static B: UBump<[u64; 8]> = todo!(); ", "thread_local! { static B: UBump<[u64; 8]> = UBump::uninit(); } B.with(|b| touch(&b.bump_box::<u8>().ok()));"),
    ("thread_local! { static B: UBump<[u64; 8]> = UBump::uninit(); } let h = B.with(|b| b.bump_box::<u8>().ok()); touch(&h);", "thread_local! { static B: UBump<[u64; 8]> = UBump::uninit(); } let h = B.with(|b| b.bump_box::<u8>().is_ok()); touch(&h);"),
    // Threads.
    ("let b = Bump::<[u64; 8]>::uninit(); let r = b.leak(1u8).ok().unwrap(); std::thread::spawn(move || touch(r));", "let b = Bump::<[u64; 8]>::uninit(); let r = b.leak(1u8).ok().unwrap(); std::thread::scope(|s| { s.spawn(move || touch(r)); });"),
    ("let b = Bump::<[u64; 8]>::uninit(); let r = b.leak(StdRc::new(1u8)).ok().unwrap(); std::thread::scope(|s| { s.spawn(move || touch(r)); });", "let b = Bump::<[u64; 8]>::uninit(); std::thread::scope(|s| { s.spawn(|| touch(&b.leak(StdRc::new(1u8)).ok())); });"),
    ("let b = Bump::<[u64; 8]>::uninit(); let r = b.leak_box(StdRc::new(1u8)).unwrap(); std::thread::scope(|s| { s.spawn(move || touch(&r)); });", "let b = Bump::<[u64; 8]>::uninit(); std::thread::scope(|s| { s.spawn(|| touch(&b.leak_box(StdRc::new(1u8)))); });"),
    ("let b = UBump::<[u64; 8]>::uninit(); std::thread::scope(|s| { s.spawn(|| touch(&b.bump_box::<u8>().ok())); });", "let b = Bump::<[u64; 8]>::uninit(); std::thread::scope(|s| { s.spawn(|| touch(&b.leak_box(1u8))); });"),
    ("let b = Chain::new(64).unwrap(); std::thread::scope(|s| { s.spawn(|| touch(&b.bump_box::<u8>().ok())); });", "let b = Chain::new(64).unwrap(); touch(&b.bump_box::<u8>().ok());"),
    ("let b = Bump::<[u64; 8]>::uninit(); let r = LocalAllocLeakExt::rc(&b, 1u8).unwrap(); let q = r.clone(); std::thread::scope(|s| { s.spawn(move || touch(&q)); });", "let b = Bump::<[u64; 8]>::uninit(); let r = LocalAllocLeakExt::rc(&b, 1u8).unwrap(); let q = r.clone(); touch(&*q);"),
    ("let b = Bump::<[u64; 8]>::uninit(); let r = LocalAllocLeakExt::rc(&b, 1u8).unwrap(); std::thread::scope(|s| { s.spawn(|| touch(&r)); });", "let b = Bump::<[u64; 8]>::uninit(); std::thread::scope(|s| { s.spawn(|| touch(&LocalAllocLeakExt::rc(&b, 1u8).unwrap())); });"),
    ("let b = Bump::<[u64; 8]>::uninit(); let r = WaRc::downgrade(&LocalAllocLeakExt::rc(&b, 1u8).unwrap()); std::thread::scope(|s| { s.spawn(move || touch(&r)); });", "let b = Bump::<[u64; 8]>::uninit(); let r = WaRc::downgrade(&LocalAllocLeakExt::rc(&b, 1u8).unwrap()); touch(&r);"),
    ("let b = Bump::<[u64; 8]>::uninit(); let r = LocalAllocLeakExt::boxed(&b, StdRc::new(1u8)).unwrap(); std::thread::scope(|s| { s.spawn(move || touch(&r)); });", "let b = Bump::<[u64; 8]>::uninit(); let r = LocalAllocLeakExt::boxed(&b, StdRc::new(1u8)).unwrap(); touch(&r);"),
    ("let b = Bump::<[u64; 8]>::uninit(); let r = LocalAllocLeakExt::rc(&b, 1u8).unwrap(); let w = WaRc::downgrade(&r); std::thread::scope(|s| { s.spawn(|| touch(&w)); });", "let b = Bump::<[u64; 8]>::uninit(); let r = LocalAllocLeakExt::rc(&b, 1u8).unwrap(); let w = WaRc::downgrade(&r); touch(&w);"),
    ("let b = Bump::<[u64; 8]>::uninit(); let r = LocalAllocLeakExt::rc(&b, 1u8).unwrap(); let w = WaRc::downgrade(&r); need_sync(&w);", "let b = Bump::<[u64; 8]>::uninit(); let r = LocalAllocLeakExt::rc(&b, 1u8).unwrap(); let w = WaRc::downgrade(&r); need_sync(&*r);"),
    ("let b = Bump::<[u64; 8]>::uninit(); let r = LocalAllocLeakExt::rc(&b, 1u8).unwrap(); let w = WaRc::downgrade(&r); need_send(&w);", "let b = Bump::<[u64; 8]>::uninit(); let r = LocalAllocLeakExt::rc(&b, 1u8).unwrap(); let w = WaRc::downgrade(&r); need_send(&*r);"),
    ("let b = Bump::<[u64; 8]>::uninit(); let r = LocalAllocLeakExt::rc(&b, 1u8).unwrap(); let w = WaRc::downgrade(&r); need_sync(&r);", "let b = Bump::<[u64; 8]>::uninit(); let r = LocalAllocLeakExt::rc(&b, 1u8).unwrap(); let w = WaRc::downgrade(&r); need_sync(&*r);"),
    ("let b = Bump::<[u64; 8]>::uninit(); let r = LocalAllocLeakExt::rc(&b, 1u8).unwrap(); let w = WaRc::downgrade(&r); need_send(&r);", "let b = Bump::<[u64; 8]>::uninit(); let r = LocalAllocLeakExt::rc(&b, 1u8).unwrap(); let w = WaRc::downgrade(&r); need_send(&*r);"),
    ("let b = Bump::<[u64; 8]>::uninit(); need_send(&LocalAllocLeakExt::boxed(&b, StdRc::new(1u8)).unwrap());", "let b = Bump::<[u64; 8]>::uninit(); need_send(&**LocalAllocLeakExt::boxed(&b, Box::new(1u8)).unwrap());"),
    ("let b = Bump::<[u64; 8]>::uninit(); need_sync(&LocalAllocLeakExt::boxed(&b, Cell::new(1u8)).unwrap());", "let b = Bump::<[u64; 8]>::uninit(); need_sync(&*LocalAllocLeakExt::boxed(&b, 1u8).unwrap());"),
    ("let b = Bump::<[u64; 8]>::uninit(); need_sync(&b.leak_box(Cell::new(1u8)).unwrap());", "let b = Bump::<[u64; 8]>::uninit(); need_sync(&*b.leak_box(1u8).unwrap());"),
    ("let b = Bump::<[u64; 8]>::uninit(); need_send(&b.leak_box(StdRc::new(1u8)).unwrap());", "let b = Bump::<[u64; 8]>::uninit(); need_send(&*b.leak_box(1u8).unwrap());"),
    ("let b = Bump::<[u64; 8]>::uninit(); need_send(&LocalAllocLeakExt::fixed_vec::<StdRc<u8>>(&b, 1).unwrap());", "let b = Bump::<[u64; 8]>::uninit(); need_sync(&b);"),
    ("need_sync(&UBump::<[u64; 8]>::uninit());", "need_send(&UBump::<[u64; 8]>::uninit());"),
    ("need_sync(&Chain::new(64).unwrap());", "need_sync(&Bump::<[u64; 8]>::uninit());"),
    ("let mut s = [MaybeUninit::uninit(); 64]; need_sync(&*MemBump::from_mem(&mut s).unwrap());", "let mut s = [MaybeUninit::uninit(); 64]; touch(&*MemBump::from_mem(&mut s).unwrap());"),
    ("need_sync(&ExitStack::<u32>::new());", "touch(&std::pin::pin!(ExitStack::<u32>::new()).as_ref().slot::<u8>().is_some());"),
    // Unsizing keeps what is known about the value, and no more.
    ("need_send(&unsize::CoerceUnsized::unsize(&mut 1u32, unsize::Coercion!(to dyn Debug)));", "need_send(&unsize::CoerceUnsized::unsize(&mut 1u32, unsize::Coercion!(to dyn Debug + Send)));"),
    ("let x = StdRc::new(1u8); touch(unsize::CoerceUnsized::unsize(&x, unsize::Coercion!(to dyn Debug + Send)));", "let x = StdRc::new(1u8); touch(unsize::CoerceUnsized::unsize(&x, unsize::Coercion!(to dyn Debug)));"),
    ("let r; { let x = 1u32; r = unsize::CoerceUnsized::unsize(&x, unsize::Coercion!(to dyn Debug)); } touch(&r);", "let r; { let x = 1u32; r = unsize::CoerceUnsized::unsize(&x, unsize::Coercion!(to dyn Debug)); touch(&r); }"),
    ("let mut x = 1u32; let r = unsize::CoerceUnsized::unsize(&mut x, unsize::Coercion!(to dyn Debug)); x = 2; touch(&r);", "let mut x = 1u32; let r = unsize::CoerceUnsized::unsize(&mut x, unsize::Coercion!(to dyn Debug)); touch(&r); x = 2;"),
    ("let x = String::new(); let b = Box::new(Held(&x)); let b: Box<dyn Debug + 'static> = unsize::CoerceUnsized::unsize(b, unsize::Coercion!(to dyn Debug)); need_static(b);", "let x = String::new(); let b = Box::new(x); let b: Box<dyn Debug + 'static> = unsize::CoerceUnsized::unsize(b, unsize::Coercion!(to dyn Debug)); need_static(b);"),
    ("let x = String::new(); let b = Box::new(Held(&x)); let b = unsize::CoerceUnsized::unsize(b, unsize::Coercion!(to dyn Debug)); drop(x); drop(b);", "let x = String::new(); let b = Box::new(Held(&x)); let b = unsize::CoerceUnsized::unsize(b, unsize::Coercion!(to dyn Debug)); drop(b); drop(x);"),
    ("let mut a = [1u8, 2]; let r = unsize::CoerceUnsized::unsize(&mut a, unsize::Coercion::to_slice()); a[0] = 2; touch(&r);", "let mut a = [1u8, 2]; let r = unsize::CoerceUnsized::unsize(&mut a, unsize::Coercion::to_slice()); touch(&r); a[0] = 2;"),
    ("let x = 1u8; let r: Box<dyn Fn() -> u8> = unsize::CoerceUnsized::unsize(Box::new(|| x), unsize::Coercion::<_, dyn Fn() -> u8>::to_fn()); need_static(r);", "let x = 1u8; let r: Box<dyn Fn() -> u8> = unsize::CoerceUnsized::unsize(Box::new(move || x), unsize::Coercion::<_, dyn Fn() -> u8>::to_fn()); need_static(r);"),
    ("let x = std::sync::Arc::new(Cell::new(1)); let r = unsize::CoerceUnsized::unsize(x, unsize::Coercion!(to dyn Debug)); need_send(&r);", "let x = std::sync::Arc::new(1); let r = unsize::CoerceUnsized::unsize(x, unsize::Coercion!(to dyn Debug + Send + Sync)); need_send(&r);"),
    ("let b = Bump::<[u64; 8]>::uninit(); let x = LocalAllocLeakExt::boxed(&b, 1u32).unwrap(); let r = unsize_registry::CoerceUnsize::unsize(x, unsize_registry::Coercion!(to dyn Debug)); drop(b); drop(r);", "let b = Bump::<[u64; 8]>::uninit(); let x = LocalAllocLeakExt::boxed(&b, 1u32).unwrap(); let r = unsize_registry::CoerceUnsize::unsize(x, unsize_registry::Coercion!(to dyn Debug)); drop(r); drop(b);"),
    // Handles, owners and places made by hand keep the scope of their memory.
    ("let b = Bump::<[u64; 8]>::uninit(); let a = LocalAlloc::alloc(&b, NonZeroLayout::new::<u32>().unwrap()); drop(b); touch(&a);", "let b = Bump::<[u64; 8]>::uninit(); let a = LocalAlloc::alloc(&b, NonZeroLayout::new::<u32>().unwrap()); touch(&a); drop(b);"),
    ("let b = Bump::<[u64; 8]>::uninit(); let a = LocalAlloc::alloc_zeroed(&b, NonZeroLayout::new::<u32>().unwrap()); drop(b); touch(&a);", "let b = Bump::<[u64; 8]>::uninit(); let a = LocalAlloc::alloc_zeroed(&b, NonZeroLayout::new::<u32>().unwrap()); touch(&a); drop(b);"),
    ("let b = Bump::<[u64; 8]>::uninit(); let a = unsafe { LocalAlloc::realloc(&b, LocalAlloc::alloc(&b, NonZeroLayout::new::<u32>().unwrap()).unwrap(), NonZeroLayout::new::<u64>().unwrap()) }; drop(b); touch(&a);", "let b = Bump::<[u64; 8]>::uninit(); let a = unsafe { LocalAlloc::realloc(&b, LocalAlloc::alloc(&b, NonZeroLayout::new::<u32>().unwrap()).unwrap(), NonZeroLayout::new::<u64>().unwrap()) }; touch(&a); drop(b);"),
    ("let b = Bump::<[u64; 8]>::uninit(); let a = LocalAllocLeakExt::alloc_layout(&b, NonZeroLayout::new::<u32>().unwrap()); drop(b); touch(&a);", "let b = Bump::<[u64; 8]>::uninit(); let a = LocalAllocLeakExt::alloc_layout(&b, NonZeroLayout::new::<u32>().unwrap()); touch(&a); drop(b);"),
    ("let b = Bump::<[u64; 8]>::uninit(); let a: Option<&mut u8> = unsafe { LocalAllocLeakExt::copy_dst(&b, &std::mem::ManuallyDrop::new(1u8)) }; drop(b); touch(&a);", "let b = Bump::<[u64; 8]>::uninit(); let a: Option<&mut u8> = unsafe { LocalAllocLeakExt::copy_dst(&b, &std::mem::ManuallyDrop::new(1u8)) }; touch(&a); drop(b);"),
    ("let b = Bump::<[u64; 8]>::uninit(); let a = unsafe { b.get::<u8>().unwrap().leak(1) }; drop(b); touch(a);", "let b = Bump::<[u64; 8]>::uninit(); let a = unsafe { b.get::<u8>().unwrap().leak(1) }; touch(a); drop(b);"),
    ("let b = Bump::<[u64; 8]>::uninit(); let a = unsafe { b.get::<u8>().unwrap().boxed(1) }; drop(b); touch(&a);", "let b = Bump::<[u64; 8]>::uninit(); let a = unsafe { b.get::<u8>().unwrap().boxed(1) }; touch(&a); drop(a); drop(b);"),
    ("let b = Bump::<[u64; 8]>::uninit(); let a = unsafe { b.get::<u8>().unwrap().uninit() }; drop(b); touch(a);", "let b = Bump::<[u64; 8]>::uninit(); let a = unsafe { b.get::<u8>().unwrap().uninit() }; touch(a); drop(b);"),
    ("let b = Bump::<[u64; 8]>::uninit(); if let Err(e) = b.leak(String::new()) { let x = e.into_inner(); touch(&(x, e.into_inner())); }", "let b = Bump::<[u64; 8]>::uninit(); if let Err(e) = b.leak(String::new()) { touch(&e.kind()); touch(&e.into_inner()); }"),
    ("let mut b = [MaybeUninit::uninit(); 64]; let m = unsafe { MemBump::from_mem_unchecked(&mut b) }; b[0] = MaybeUninit::uninit(); touch(&*m);", "let mut b = [MaybeUninit::uninit(); 64]; let m = unsafe { MemBump::from_mem_unchecked(&mut b) }; touch(&*m); drop(m); b[0] = MaybeUninit::uninit();"),
    ("let m; { let mut b = [MaybeUninit::uninit(); 64]; m = unsafe { MemBump::from_mem_unchecked(&mut b) }; } touch(&*m);", "let mut b = [MaybeUninit::uninit(); 64]; let m; { m = unsafe { MemBump::from_mem_unchecked(&mut b) }; } touch(&*m);"),
    ("let m; { let mut b = [MaybeUninit::uninit(); 64]; m = MemBump::from_mem(&mut b).unwrap(); } touch(&*m);", "let mut b = [MaybeUninit::uninit(); 64]; let m; { m = MemBump::from_mem(&mut b).unwrap(); } touch(&*m);"),
    ("let x; { let mut m = MaybeUninit::<u32>::uninit(); x = unsafe { WaBox::from_raw(Uninit::from(&mut m)) }; } touch(&x);", "let mut m = MaybeUninit::<u32>::uninit(); let x; { x = unsafe { WaBox::from_raw(Uninit::from(&mut m)) }; } touch(&x);"),
    ("let x; { let mut m = MaybeUninit::<u32>::uninit(); x = WaBox::new(1, Uninit::from(&mut m)); } touch(&x);", "let mut m = MaybeUninit::<u32>::uninit(); let x; { x = WaBox::new(1, Uninit::from(&mut m)); } touch(&x);"),
    ("let x; { let mut m = MaybeUninit::<[u64; 4]>::uninit(); x = WaRc::new(1u32, Uninit::from(&mut m).cast().ok().unwrap()); } touch(&x);", "let mut m = MaybeUninit::<[u64; 4]>::uninit(); let x; { x = WaRc::new(1u32, Uninit::from(&mut m).cast().ok().unwrap()); } touch(&x);"),
    ("let x; { let mut m = MaybeUninit::uninit(); x = unsafe { WaRc::<u32>::from_raw(Uninit::from(&mut m)) }; } touch(&x);", "let mut m = MaybeUninit::uninit(); let x; { x = unsafe { WaRc::<u32>::from_raw(Uninit::from(&mut m)) }; } touch(&x);"),
    ("let x; { let mut m = MaybeUninit::<u32>::uninit(); x = unsafe { Uninit::from_view(UninitView::from(&m)) }; touch_mut(&mut m); } touch(&x);", "let mut m = MaybeUninit::<u32>::uninit(); let x; { x = unsafe { Uninit::from_view(UninitView::from(&m)) }; } touch(&x);"),
    ("let x; { let m = MaybeUninit::<u32>::uninit(); x = unsafe { Uninit::from_view(UninitView::from(&m)) }; } touch(&x);", "let m = MaybeUninit::<u32>::uninit(); let x; { x = unsafe { Uninit::from_view(UninitView::from(&m)) }; } touch(&x);"),
    ("let x; { let mut s = String::new(); x = LeakBox::from_mut(unsafe { &mut *s.as_mut_vec() }.first_mut().unwrap()); touch(&*x); } touch(&*x);", "let mut s = [1u8]; let x; { x = LeakBox::from_mut(s.first_mut().unwrap()); touch(&*x); } touch(&*x);"),
    ("let x; { let mut s = String::new(); x = unsafe { LeakBox::from_mut_unchecked(&mut s) }; } touch(&x);", "let mut s = String::new(); let x; { x = unsafe { LeakBox::from_mut_unchecked(&mut s) }; } touch(&x); std::mem::forget(x);"),
    ("let mut m = MaybeUninit::<u32>::uninit(); let mut u = Uninit::from(&mut m); let r = unsafe { u.as_mut() }; let q = unsafe { u.as_mut() }; touch(r); touch(q);", "let mut m = MaybeUninit::<u32>::uninit(); let mut u = Uninit::from(&mut m); let r = unsafe { u.as_mut() }; touch(r); let q = unsafe { u.as_mut() }; touch(q);"),
    ("let mut m = MaybeUninit::<u32>::uninit(); let mut u = Uninit::from(&mut m); let r = unsafe { u.as_mut() }; u.init(1); touch(r);", "let mut m = MaybeUninit::<u32>::uninit(); let mut u = Uninit::from(&mut m); let r = unsafe { u.as_mut() }; touch(r); u.init(1);"),
    ("let mut m = MaybeUninit::<u32>::uninit(); let u = Uninit::from(&mut m); let r = unsafe { u.as_ref() }; u.init(1); touch(r);", "let mut m = MaybeUninit::<u32>::uninit(); let u = Uninit::from(&mut m); let r = unsafe { u.as_ref() }; touch(r); u.init(1);"),
    ("let mut m = MaybeUninit::<u32>::uninit(); let mut u = Uninit::from(&mut m); let r = unsafe { u.as_ref() }; touch(unsafe { u.as_mut() }); touch(r);", "let mut m = MaybeUninit::<u32>::uninit(); let mut u = Uninit::from(&mut m); let r = unsafe { u.as_ref() }; touch(r); touch(unsafe { u.as_mut() });"),
    ("let r; { let mut m = MaybeUninit::<u32>::uninit(); r = unsafe { Uninit::from(&mut m).into_ref() }; } touch(r);", "let mut m = MaybeUninit::<u32>::uninit(); let r; { r = unsafe { Uninit::from(&mut m).into_ref() }; } touch(r);"),
    ("let r; { let mut m = MaybeUninit::<u32>::uninit(); r = unsafe { Uninit::from(&mut m).into_mut() }; } touch(r);", "let mut m = MaybeUninit::<u32>::uninit(); let r; { r = unsafe { Uninit::from(&mut m).into_mut() }; } touch(r);"),
    ("let r; { let m = MaybeUninit::<u32>::uninit(); r = unsafe { UninitView::from(&m).into_ref() }; } touch(r);", "let m = MaybeUninit::<u32>::uninit(); let r; { r = unsafe { UninitView::from(&m).into_ref() }; } touch(r);"),
    ("let mut m = MaybeUninit::<u32>::uninit(); let u = Uninit::from(&mut m); let r = unsafe { u.into_ref() }; u.init(1); touch(r);", "let mut m = MaybeUninit::<u32>::uninit(); let mut u = Uninit::from(&mut m); touch(u.borrow_mut().init(1)); let r = unsafe { u.into_ref() }; touch(r);"),
    ("let mut m = MaybeUninit::<u32>::uninit(); let u = Uninit::from(&mut m); let r = unsafe { u.into_mut() }; let q = unsafe { u.into_mut() }; touch(r); touch(q);", "let mut m = MaybeUninit::<u32>::uninit(); let mut u = Uninit::from(&mut m); touch(u.borrow_mut().init(1)); let r = unsafe { u.into_mut() }; touch(r);"),
    ("let mut m = [MaybeUninit::<u32>::uninit(); 4]; let u = Uninit::from(&mut m[..]); let v = FixedVec::new(u); touch(&u.capacity()); touch(&v);", "let mut m = [MaybeUninit::<u32>::uninit(); 4]; let u = Uninit::from(&mut m[..]); touch(&u.capacity()); let v = FixedVec::new(u); touch(&v);"),
    ("let mut m = [MaybeUninit::<u32>::uninit(); 4]; let mut v = FixedVec::new(Uninit::from(&mut m[..])); let mut d = v.drain(..); let s = d.as_mut_slice(); let t = d.as_mut_slice(); touch(s); touch(t);", "let mut m = [MaybeUninit::<u32>::uninit(); 4]; let mut v = FixedVec::new(Uninit::from(&mut m[..])); let mut d = v.drain(..); let s = d.as_mut_slice(); touch(s); let t = d.as_mut_slice(); touch(t);"),
    ("let mut m = [MaybeUninit::<u32>::uninit(); 4]; let mut v = FixedVec::new(Uninit::from(&mut m[..])); let mut d = v.drain(..); let s = d.as_mut_slice(); touch(&d.next()); touch(s);", "let mut m = [MaybeUninit::<u32>::uninit(); 4]; let mut v = FixedVec::new(Uninit::from(&mut m[..])); let mut d = v.drain(..); let s = d.as_mut_slice(); touch(s); touch(&d.next());"),
    ("let mut m = [MaybeUninit::<u32>::uninit(); 4]; let mut v = FixedVec::new(Uninit::from(&mut m[..])); let mut d = v.drain(..); let s = d.as_slice(); touch(&d.next()); touch(s);", "let mut m = [MaybeUninit::<u32>::uninit(); 4]; let mut v = FixedVec::new(Uninit::from(&mut m[..])); let mut d = v.drain(..); let s = d.as_slice(); touch(s); touch(&d.next());"),
    ("let mut m = [MaybeUninit::<u32>::uninit(); 4]; let mut v = FixedVec::new(Uninit::from(&mut m[..])); let s = v.drain(..).as_mut_slice(); touch(&v); touch(s);", "let mut m = [MaybeUninit::<u32>::uninit(); 4]; let mut v = FixedVec::new(Uninit::from(&mut m[..])); touch(v.drain(..).as_mut_slice()); touch(&v);"),
    ("let mut m = [MaybeUninit::<u32>::uninit(); 4]; let mut v = FixedVec::new(Uninit::from(&mut m[..])); let d = v.drain(..); touch(&v.len()); touch(&d.len());", "let mut m = [MaybeUninit::<u32>::uninit(); 4]; let mut v = FixedVec::new(Uninit::from(&mut m[..])); let d = v.drain(..); touch(&d.len()); drop(d); touch(&v.len());"),
    ("let s = std::pin::pin!(ExitStack::<u32>::new()); let c = s.as_ref().slot::<u8>().unwrap(); touch(&unsafe { c.pin_local(1) }); touch(&unsafe { c.pin_local(1) });", "let s = std::pin::pin!(ExitStack::<[usize; 16]>::new()); let c = s.as_ref().slot::<u8>().unwrap(); touch(&unsafe { c.pin_local(1) }); let c = s.as_ref().slot::<u8>().unwrap(); touch(&unsafe { c.pin_local(1) });"),
    ("let s = std::pin::pin!(ExitStack::<u32>::new()); let c = s.as_ref().slot::<u8>().unwrap(); touch(&c.pin(1)); touch(&c.pin(1));", "let s = std::pin::pin!(ExitStack::<[usize; 16]>::new()); let c = s.as_ref().slot::<u8>().unwrap(); touch(&c.pin(1)); let c = s.as_ref().slot::<u8>().unwrap(); touch(&c.pin(1));"),
    // Constructors that trust the caller are unsafe.
    ("unsize::Coercion::<u8, u8>::new(|p| p);", "unsafe { unsize::Coercion::<u8, u8>::new(|p| p) };"),
    ("let b = Bump::<[u64; 8]>::uninit(); touch(b.get::<u8>().unwrap().leak(1));", "let b = Bump::<[u64; 8]>::uninit(); touch(unsafe { b.get::<u8>().unwrap().leak(1) });"),
    ("let b = Bump::<[u64; 8]>::uninit(); touch(&b.get::<u8>().unwrap().boxed(1));", "let b = Bump::<[u64; 8]>::uninit(); touch(&unsafe { b.get::<u8>().unwrap().boxed(1) });"),
    ("let b = Bump::<[u64; 8]>::uninit(); touch(b.get::<u8>().unwrap().uninit());", "let b = Bump::<[u64; 8]>::uninit(); touch(unsafe { b.get::<u8>().unwrap().uninit() });"),
    ("let b = UBump::<[u64; 8]>::uninit(); let l = b.level(); touch(&b.get_unchecked::<u8>(l));", "let b = UBump::<[u64; 8]>::uninit(); let l = b.level(); touch(&unsafe { b.get_unchecked::<u8>(l) });"),
    ("let mut b = [MaybeUninit::uninit(); 64]; touch(&*MemBump::from_mem_unchecked(&mut b));", "let mut b = [MaybeUninit::uninit(); 64]; touch(&*unsafe { MemBump::from_mem_unchecked(&mut b) });"),
    ("touch(&LeakBox::<u8>::from_raw(&mut 1));", "touch(&unsafe { LeakBox::<u8>::from_raw(&mut 1) });"),
    ("touch(&LeakBox::<String>::from_mut_unchecked(&mut String::new()));", "touch(&unsafe { LeakBox::<String>::from_mut_unchecked(&mut String::new()) });"),
    ("let mut m = MaybeUninit::<String>::uninit(); touch(&LeakBox::assume_init(LeakBox::from(&mut m)));", "let mut m = MaybeUninit::<String>::uninit(); touch(&unsafe { LeakBox::assume_init(LeakBox::from(&mut m)) });"),
    ("let mut m = MaybeUninit::<String>::uninit(); touch(&WaBox::from_raw(Uninit::from(&mut m)));", "let mut m = MaybeUninit::<String>::uninit(); touch(&unsafe { WaBox::from_raw(Uninit::from(&mut m)) });"),
    ("let mut m = MaybeUninit::<String>::uninit(); touch(&WaRc::from_raw(Uninit::from(&mut m)));", "let mut m = MaybeUninit::<String>::uninit(); touch(&unsafe { WaRc::from_raw(Uninit::from(&mut m)) });"),
    ("let mut m = MaybeUninit::<String>::uninit(); touch(Uninit::from(&mut m).as_ref());", "let mut m = MaybeUninit::<String>::uninit(); touch(unsafe { Uninit::from(&mut m).as_ref() });"),
    ("let mut m = MaybeUninit::<String>::uninit(); touch(Uninit::from(&mut m).as_mut());", "let mut m = MaybeUninit::<String>::uninit(); touch(unsafe { Uninit::from(&mut m).as_mut() });"),
    ("let mut m = MaybeUninit::<String>::uninit(); touch(Uninit::from(&mut m).into_ref());", "let mut m = MaybeUninit::<String>::uninit(); touch(unsafe { Uninit::from(&mut m).into_ref() });"),
    ("let mut m = MaybeUninit::<String>::uninit(); touch(Uninit::from(&mut m).into_mut());", "let mut m = MaybeUninit::<String>::uninit(); touch(unsafe { Uninit::from(&mut m).into_mut() });"),
    ("let mut m = MaybeUninit::<String>::uninit(); touch(&Uninit::from(&mut m).read());", "let mut m = MaybeUninit::<String>::uninit(); touch(&unsafe { Uninit::from(&mut m).read() });"),
    ("let m = MaybeUninit::<String>::uninit(); touch(UninitView::from(&m).as_ref());", "let m = MaybeUninit::<String>::uninit(); touch(unsafe { UninitView::from(&m).as_ref() });"),
    ("let m = MaybeUninit::<String>::uninit(); touch(UninitView::from(&m).into_ref());", "let m = MaybeUninit::<String>::uninit(); touch(unsafe { UninitView::from(&m).into_ref() });"),
    ("let m = MaybeUninit::<String>::uninit(); touch(&Uninit::from_view(UninitView::from(&m)));", "let m = MaybeUninit::<String>::uninit(); touch(&unsafe { Uninit::from_view(UninitView::from(&m)) });"),
    ("touch(&Uninit::<()>::from_memory(std::ptr::NonNull::<u8>::dangling(), 1));", "touch(&unsafe { Uninit::<()>::from_memory(std::ptr::NonNull::<u8>::dangling(), 1) });"),
    ("touch(&UninitView::<()>::from_memory(std::ptr::NonNull::<u8>::dangling(), 1));", "touch(&unsafe { UninitView::<()>::from_memory(std::ptr::NonNull::<u8>::dangling(), 1) });"),
    ("touch(&Uninit::<u8>::new(std::ptr::NonNull::dangling(), 1));", "touch(&unsafe { Uninit::<u8>::new(std::ptr::NonNull::dangling(), 1) });"),
    ("touch(&UninitView::<u8>::new(std::ptr::NonNull::dangling(), 1));", "touch(&unsafe { UninitView::<u8>::new(std::ptr::NonNull::dangling(), 1) });"),
    ("let mut m = [MaybeUninit::<String>::uninit()]; FixedVec::new(Uninit::from(&mut m[..])).set_len(1);", "let mut m = [MaybeUninit::<u8>::uninit()]; unsafe { FixedVec::new(Uninit::from(&mut m[..])).set_len(1) };"),
    ("let b = Bump::<[u64; 8]>::uninit(); touch(&LocalAllocLeakExt::copy_dst(&b, &std::mem::ManuallyDrop::new(1u8)));", "let b = Bump::<[u64; 8]>::uninit(); touch(&unsafe { LocalAllocLeakExt::copy_dst(&b, &std::mem::ManuallyDrop::new(1u8)) });"),
    ("let s = std::pin::pin!(ExitStack::<u32>::new()); touch(&s.as_ref().slot::<u8>().unwrap().pin_local(1));", "let s = std::pin::pin!(ExitStack::<u32>::new()); touch(&unsafe { s.as_ref().slot::<u8>().unwrap().pin_local(1) });"),
    // The lifetime of an allocation is no matter of interpretation.
    ("fn f<'a>(v: AllocTime<'static>) -> AllocTime<'a> { v }", "fn f<'a>(v: AllocTime<'a>) -> AllocTime<'a> { v }"),
    ("fn f<'a>(v: AllocTime<'a>) -> AllocTime<'static> { v }", "fn f<'a>(_: AllocTime<'a>) -> AllocTime<'static> { AllocTime::default() }"),
    ("fn f<'a>(v: alloc_traits::Allocation<'static>) -> alloc_traits::Allocation<'a> { v }", "fn f<'a>(v: alloc_traits::Allocation<'a>) -> alloc_traits::Allocation<'a> { v }"),
    ("fn f<'a>(v: alloc_traits::Allocation<'a>) -> alloc_traits::Allocation<'static> { v }", "fn f(v: alloc_traits::Allocation<'static>) -> alloc_traits::Allocation<'static> { v }"),
    ("fn l() -> NonZeroLayout { NonZeroLayout::new::<u64>().unwrap() } let a; { let b = Bump::<[u64; 8]>::uninit(); a = LocalAlloc::alloc(&b, l()).unwrap(); } touch(&a.lifetime);", "fn l() -> NonZeroLayout { NonZeroLayout::new::<u64>().unwrap() } let a; { let b = Bump::<[u64; 8]>::uninit(); a = LocalAlloc::alloc(&b, l()).unwrap(); touch(&a.lifetime); }"),
    ("fn f<'a, A: LocalAlloc<'a>>(b: &'a A, v: alloc_traits::Allocation<'a>) { b.dealloc(v) }", "fn f<'a, A: LocalAlloc<'a>>(b: &'a A, v: alloc_traits::Allocation<'a>) { unsafe { b.dealloc(v) } }"),
    ("fn f<'a, A: LocalAlloc<'a>>(b: &'a A, v: alloc_traits::Allocation<'a>) { touch(&b.realloc(v, NonZeroLayout::new::<u64>().unwrap())) }", "fn f<'a, A: LocalAlloc<'a>>(b: &'a A, v: alloc_traits::Allocation<'a>) { touch(&unsafe { b.realloc(v, NonZeroLayout::new::<u64>().unwrap()) }) }"),
    // Views of a copied slice need plain data.
    ("let b = Bump::<[u64; 8]>::uninit(); touch(&LocalAllocLeakExt::copy_slice(&b, &[String::new()]));", "let b = Bump::<[u64; 8]>::uninit(); touch(&LocalAllocLeakExt::copy_slice(&b, &[1u8]));"),
    // A variable of a longer lived type cannot be made to hold shorter lived content.
    ("fn f<'a, 'b>(v: &mut FixedVec<'a, &'static str>, s: &'b str) { let w: &mut FixedVec<'a, &'b str> = v; let _ = w.push(s); }", "fn f<'a, 'b>(v: FixedVec<'a, &'b str>, s: &'b str) { let mut w: FixedVec<'a, &'b str> = v; let _ = w.push(s); }"),
    ("fn f<'a>(v: LeakBox<'a, u32>) -> LeakBox<'static, u32> { v }", "fn f<'a>(v: LeakBox<'static, u32>) -> LeakBox<'a, u32> { LeakBox::from_mut(LeakBox::leak(v)) }"),
    ("fn f<'a>(v: LeakBox<'a, u32>) -> &'static mut u32 { LeakBox::leak(v) }", "fn f<'a>(v: LeakBox<'a, u32>) -> &'a mut u32 { LeakBox::leak(v) }"),
    ("fn f<'a>(v: WaBox<'a, u32>) -> &'static mut u32 { WaBox::leak(v) }", "fn f<'a>(v: WaBox<'a, u32>) -> &'a mut u32 { WaBox::leak(v) }"),
    ("fn f<'a>(v: Uninit<'a, u32>) -> &'static mut u32 { v.init(1) }", "fn f<'a>(v: Uninit<'a, u32>) -> &'a mut u32 { v.init(1) }"),
    ("fn f<'a>(v: Uninit<'a, u32>) -> Uninit<'static, u32> { v }", "fn f<'a>(v: Uninit<'static, u32>) -> Uninit<'a, u32> { v }"),
    ("fn f<'a>(v: WaRc<'a, u32>) -> WaRc<'static, u32> { v.clone() }", "fn f<'a>(v: WaRc<'a, u32>) -> WaRc<'a, u32> { v.clone() }"),
    ("fn f<'a>(v: WaWeak<'a, u32>) -> Option<WaRc<'static, u32>> { v.upgrade() }", "fn f<'a>(v: WaWeak<'a, u32>) -> Option<WaRc<'a, u32>> { v.upgrade() }"),
    ("fn f<'a>(v: &'a mut [MaybeUninit<u8>]) -> LeakBox<'static, MemBump> { MemBump::from_mem(v).unwrap() }", "fn f<'a>(v: &'a mut [MaybeUninit<u8>]) -> LeakBox<'a, MemBump> { MemBump::from_mem(v).unwrap() }"),
    ("fn f<'a>(v: LeakBox<'a, MemBump>) -> &'static mut [MaybeUninit<u8>] { MemBump::into_mem(v) }", "fn f<'a>(v: LeakBox<'a, MemBump>) -> &'a mut [MaybeUninit<u8>] { MemBump::into_mem(v) }"),
];

/// Where the compiler finds what the programs use, as written by the build.
fn rustc() -> Command {
    let f = std::env::var("SCOPE_ARGS").unwrap_or_else(|_| pbt::undecided(&format!("SCOPE_ARGS is not set")));
    let s = std::fs::read_to_string(&f).unwrap_or_else(|e| pbt::undecided(&format!("{f}: {e}")));
    let mut it = s.lines();
    let mut c = Command::new(it.next().unwrap());
    c.args(it);
    c
}
/// For each program the codes of its errors.
fn compile(programs: &[&str]) -> Vec<BTreeSet<String>> {
    static N: AtomicU32 = AtomicU32::new(0);
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_nanos());
    let dir = std::env::temp_dir().join(format!("scope-{}-{now:x}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    let io = |r: std::io::Result<()>| r.unwrap_or_else(|e| pbt::undecided(&format!("{}: {e}", dir.display())));
    io(std::fs::create_dir_all(&dir));
    let mut src = String::from("#![allow(warnings)]\nuse scope_prelude::*;\n");
    let mut line = 3;
    let mut at = vec![];
    for (i, p) in programs.iter().enumerate() {
        let text = format!("pub fn p{i}() {{\n{p}\n}}\n");
        let n = text.lines().count();
        at.push(line..line + n);
        line += n;
        src.push_str(&text);
    }
    let file = dir.join("p.rs");
    io(std::fs::write(&file, src));
    let out = rustc().arg("--emit=metadata").arg("-o").arg(dir.join("p.rmeta")).arg(&file).output().unwrap_or_else(|e| pbt::undecided(&format!("rustc: {e}")));
    io(std::fs::remove_dir_all(&dir));
    let err = String::from_utf8_lossy(&out.stderr);
    let mut found = vec![BTreeSet::new(); programs.len()];
    let mut any = false;
    for l in err.lines() {
        if !l.starts_with('{') { continue; }
        if field(l, "\"level\":\"").as_deref() != Some("error") || l.contains("aborting due to") { continue; }
        any = true;
        let code = if l.contains("\"code\":{\"code\":\"") { field(l, "\"code\":{\"code\":\"").unwrap() } else { field(l, "\"message\":\"").unwrap_or_default() };
        // The spans of the message itself come before those of its children.
        let mut known = false;
        let head = l.split("\"children\":[").last().map(|_| l).unwrap();
        // Lines of other files, which a message may refer to, say nothing about our programs.
        for part in head.split("\"file_name\":\"").skip(1) {
            let (name, part) = part.split_once('"').unwrap_or((part, ""));
            if !name.ends_with("/p.rs") || !name.contains("/scope-") { continue; }
            let Some((_, part)) = part.split_once("\"line_start\":") else { continue };
            let n: usize = part.split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(0);
            if let Some(i) = at.iter().position(|r| r.contains(&n)) { found[i].insert(code.clone()); known = true; }
        }
        if !known { pbt::undecided(&format!("an error in no program: {l}")) }
    }
    if out.status.success() == any { pbt::undecided(&format!("rustc {:?}: {err}", out.status)) }
    found
}
fn field(l: &str, key: &str) -> Option<String> { let i = l.find(key)? + key.len(); Some(l[i..].split('"').next().unwrap().to_string()) }

fn case(g: &mut Src) -> R {
    let (mut good, mut bad): (Vec<String>, Vec<(String, &'static str)>) = (vec![], vec![]);
    let mut n = 0;
    while g.more(n, 60, 120) {
        n += 1;
        if g.chance(1, 8) {
            let i = g.upto((PAIRS.len() + PLACES.len()) as u64 - 1) as usize;
            if i >= PAIRS.len() {
                let (decl, what) = PLACES[i - PAIRS.len()];
                let expr = what[g.upto(what.len() as u64 - 1) as usize];
                if g.bool() { bad.push((format!("let r; {{ {decl} r = {expr}; }} touch(&r);"), "what comes from a place outliving its memory")) }
                else { good.push(format!("{decl} let r; {{ r = {expr}; }} touch(&r);")) }
            } else {
                let p = PAIRS[i];
                if g.bool() { bad.push((p.0.to_string(), "a fixed program")) } else { good.push(p.1.to_string()) }
            }
        } else {
            let (p, why) = program(g);
            match why { Some(w) => { g.label(w); bad.push((p, w)) } None => good.push(p) }
        }
    }
    if good.len() > 1 && bad.len() > 1 { g.nontrivial() }
    let (gs, bs): (Vec<&str>, Vec<&str>) = (good.iter().map(|s| &s[..]).collect(), bad.iter().map(|s| &s.0[..]).collect());
    if g.verbose() { for p in &gs { g.log(|| format!("accepted:\n{p}")) } for (p, w) in &bad { g.log(|| format!("rejected ({w}):\n{p}")) } }
    if !gs.is_empty() {
        for (p, e) in gs.iter().zip(compile(&gs)) { ensure!(e.is_empty(), "a program that respects all scopes is rejected with {e:?}:\n{p}"); }
    }
    if !bs.is_empty() {
        for ((p, w), e) in bad.iter().zip(compile(&bs)) { ensure!(!e.is_empty(), "a program is accepted although it has {w}:\n{p}"); }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        subs: vec![Sub { name: "programs", cases: (900, 20000), run: case, rule: "each case is a batch of about 60 programs compiled by rustc; at least two of them must be accepted and two rejected", track: false }],
        assumptions: vec!["The compiler decides what is accepted; the oracle knows the borrow each public operation is documented to hold"],
    }
}
