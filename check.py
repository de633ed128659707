#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]   |   check.py replay <file>"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import driver
from checks import plans
if __name__ == "__main__":
    driver.main(plans.PLANS)
