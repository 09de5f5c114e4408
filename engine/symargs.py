"""stub"""
import argparse
def module(env):
    return argparse
