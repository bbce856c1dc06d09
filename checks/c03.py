from checks.c02 import C3  # noqa
