"""Tiny violating programs: every zero-expected rule must match its example here on each run (never imported, only parsed)."""
