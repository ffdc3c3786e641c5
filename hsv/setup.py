"""setup_cmd: builds everything once, which fills Go's build cache."""
from . import common, rtcheck


def main():
    env = common.go_env()
    with common.Scratch() as tmp:
        rtcheck.build(tmp, env, False)
        rtcheck.build(tmp, env, True)
    try:
        from . import clicheck
    except ImportError:
        pass
    else:
        clicheck.setup(env)
    print("setup ok")
    return 0
