"""Builds the AST exporter (the only thing that needs building)."""
from . import program

if __name__ == "__main__":
    print(program.plugin_path())
