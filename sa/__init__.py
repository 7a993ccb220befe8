"""Static analysis framework for pyTMD: nothing in here imports or runs pyTMD code."""
