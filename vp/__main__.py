from .check import run
run()
