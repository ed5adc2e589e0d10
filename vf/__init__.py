"""Conformance framework: TLA+ specifications bound to shepherd-datalib by trace validation."""
