"""Value-flow analysis of pyage's source: gated value numbering over the syntax tree."""
