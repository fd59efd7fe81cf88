#!/usr/bin/env python3
"""builds the clang AST extractor into /verif/build"""
import os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(H, "engine"))
import ir
print(ir.tool())
