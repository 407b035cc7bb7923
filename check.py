#!/usr/bin/env python3
import sys
import vcore
sys.exit(vcore.main(sys.argv))
