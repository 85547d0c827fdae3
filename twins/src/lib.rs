// The programs to be type-checked are in engine/twins.py.
