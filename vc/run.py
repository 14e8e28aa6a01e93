"""python3-vt vc/run.py <property id>"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    import props_helpers
    props = dict(props_helpers.PROPS)
    try:
        import props_conv
        props.update(props_conv.PROPS)
    except ImportError:
        pass
    try:
        import props_str
        props.update(props_str.PROPS)
    except ImportError:
        pass
    return props[pid]()


if __name__ == '__main__':
    sys.exit(main())
