BOUNDS = [
    'Python integers are mathematical integers; floats and decimals are extended reals (no float arithmetic occurs in '
    'the functions under contract); texts are sequences of Unicode code points',
    'logging has no effect on results; no other thread touches the objects of a call',
]
