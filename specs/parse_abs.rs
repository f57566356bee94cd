// The document a TSON text denotes (made precise, and proved for the parser, in the checks of C01).
pub uninterp spec fn parse_doc(s: Str) -> Option<Val>;
