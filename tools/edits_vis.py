TR = "lumberjack/src/tree.rs"; NO="lumberjack/src/node.rs"; SP="lumberjack/src/span.rs"; L="lumberjack/src/lib.rs"
EDITS = [
 ("v-set-idx", "C18", [(NO, "pub(crate) fn set_idx", "pub fn set_idx")]),
 ("v-set-span", "C18", [(NO, "pub(crate) fn set_span(&mut self, span: impl Into<Span>) -> Result<Span, Error>", "pub fn set_span(&mut self, span: impl Into<Span>) -> Result<Span, Error>")]),
 ("v-span-mut", "C18", [(NO, "    /// Extend the upper bounds of a span.\n    pub(crate) fn extend_span", "    /// Span.\n    pub fn span_mut(&mut self) -> &mut Span {\n        match self { Node::Terminal(t) => &mut t.span, Node::NonTerminal(n) => &mut n.span }\n    }\n\n    /// Extend the upper bounds of a span.\n    pub(crate) fn extend_span")]),
 ("v-graph-mut", "C18", [(TR, "    /// Returns whether the tree is projective.", "    /// Graph.\n    pub fn graph_mut(&mut self) -> &mut StableGraph<Node, Edge> { &mut self.graph }\n\n    /// Returns whether the tree is projective.")]),
 ("v-pub-root", "C18", [(TR, "    root: NodeIndex,\n    num_disc", "    pub root: NodeIndex,\n    num_disc")]),
 ("v-parts", "C18", [(TR, "pub(crate) fn new_from_parts", "pub fn new_from_parts")]),
 ("v-set-root", "C18", [(TR, "    /// Get the index of the root of the tree.", "    /// Set.\n    pub fn set_root(&mut self, root: NodeIndex) -> NodeIndex { std::mem::replace(&mut self.root, root) }\n\n    /// Get the index of the root of the tree.")]),
 ("v-skips-mut", "C18", [(SP, "    /// Merge coverage of spans.", "    /// x\n    pub fn skips_mut(&mut self) -> Option<&mut HashSet<usize>> { self.skips.as_mut() }\n    /// Merge coverage of spans.")]),
 ("v-extend", "C18", [(SP, "pub(crate) fn extend(&mut self)", "pub fn extend(&mut self)"), ]),
 ("v-deref", "C18", [(TR, "impl Index<NodeIndex> for Tree {", "impl AsMut<StableGraph<Node, Edge>> for Tree {\n    fn as_mut(&mut self) -> &mut StableGraph<Node, Edge> { &mut self.graph }\n}\n\nimpl Index<NodeIndex> for Tree {")]),
]
