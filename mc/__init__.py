"""Stateless model checker for LSSTDESC/qp: exhaustive enumeration of bounded executions of the real code."""
