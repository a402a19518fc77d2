//! Which types may cross threads.

use mc::rowan as r;
use mc::{Family, check, family};
use std::marker::PhantomData;

trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
struct SendProbe<T: ?Sized>(PhantomData<T>);
struct SyncProbe<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> No for SendProbe<T> {}
impl<T: ?Sized> No for SyncProbe<T> {}
impl<T: ?Sized + Send> SendProbe<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> SyncProbe<T> {
    const SYNC: bool = true;
}
macro_rules! probe {
    ($($t:ty),* $(,)?) => { vec![$((stringify!($t), <SendProbe<$t>>::SEND, <SyncProbe<$t>>::SYNC)),*] };
}

use mc::api::{Lang, TElem, TNode, TToken};

pub fn family_of() -> Family {
    let yes = probe![
        r::GreenNode, r::GreenToken, r::GreenNodeData, r::GreenTokenData,
        r::NodeOrToken<r::GreenNode, r::GreenToken>, r::Children<'static>, r::NodeCache,
        r::GreenNodeBuilder<'static>, r::Checkpoint, r::SyntaxKind, r::TextRange, r::TextSize,
        r::ast::SyntaxNodePtr<Lang>, r::Direction, Vec<r::GreenNode>,
    ];
    let no = probe![
        r::cursor::SyntaxNode, r::cursor::SyntaxToken, r::cursor::SyntaxElement,
        r::cursor::SyntaxNodeChildren, r::cursor::SyntaxElementChildren, r::cursor::Preorder,
        r::cursor::PreorderWithTokens, TNode, TToken, TElem, r::SyntaxNodeChildren<Lang>,
        r::SyntaxElementChildren<Lang>, r::api::Preorder<Lang>, r::api::PreorderWithTokens<Lang>,
        r::SyntaxText, r::TokenAtOffset<TToken>, r::WalkEvent<TNode>, Vec<TNode>, &'static TNode,
        &'static r::cursor::SyntaxToken,
    ];
    let all: Vec<_> = yes.into_iter().map(|x| (x, true)).chain(no.into_iter().map(|x| (x, false))).collect();
    let n = all.len() as u64;
    family(
        "types",
        format!("which of {n} public types are Send and Sync, decided by the compiler: green and plain ones are both, handles to syntax trees and what holds them neither"),
        n,
        move |cx, i| {
            let ((name, send, sync), yes) = &all[i as usize];
            cx.case(|| name.to_string());
            cx.state(name);
            cx.outcome(&(send, sync));
            cx.step();
            check!(cx, send == yes, "{name} is {}Send", if *send { "" } else { "not " });
            check!(cx, sync == yes, "{name} is {}Sync", if *sync { "" } else { "not " });
        },
    )
}
