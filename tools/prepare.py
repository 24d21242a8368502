#!/usr/bin/env python3
"""Regenerates what the harness crate takes from /repo's current sources (nothing so far)."""
