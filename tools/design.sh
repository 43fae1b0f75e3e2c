#!/bin/bash
# writes DESIGN.md from design.md and the planted bugs
cd "$(dirname "$0")" && { sed '/@TABLE@/,$d' design.md; python3 design_table.py; sed '1,/@TABLE@/d' design.md; } > ../DESIGN.md
