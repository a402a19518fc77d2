//! Node types over the test language.
use crate::api::{Kind, Lang, TNode};
use rowan::ast::AstNode;

macro_rules! ast {
    ($name:ident, $k:ident => $can:expr, $n:ident => $cast:expr) => {
        #[derive(Clone, PartialEq, Eq, Hash, Debug)]
        pub struct $name(pub TNode);
        impl AstNode for $name {
            type Language = Lang;
            fn can_cast(k: Kind) -> bool {
                let $k = k.raw();
                $can
            }
            fn cast($n: TNode) -> Option<Self> {
                if Self::can_cast($n.kind()) && $cast { Some($name($n)) } else { None }
            }
            fn syntax(&self) -> &TNode {
                &self.0
            }
        }
    };
}
ast!(One, k => k == 1, n => { let _ = &n; true });
ast!(Two, k => k == 2, n => { let _ = &n; true });
ast!(Both, k => k == 1 || k == 2, n => { let _ = &n; true });
// a cast that looks at more than the kind
ast!(Full, k => k != 2, n => n.first_child_or_token().is_some());

