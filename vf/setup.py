"""Builds the IR dumper."""
from . import build
build.tools()
