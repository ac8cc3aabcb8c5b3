"""Stands for a user's script: the functions of the tasks given by path."""
from props.p18_funcs import *  # noqa: F401,F403
