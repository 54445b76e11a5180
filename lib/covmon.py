"""which lines of sippy the workers executed (sys.monitoring), for tools/ only"""
import sys, os, json
hits = {}
def start():
    m = sys.monitoring
    m.use_tool_id(3, 'cov')
    def line(code, n):
        f = code.co_filename
        i = f.rfind('/sippy/')
        if i >= 0: hits.setdefault(f[i + 7:], set()).add(n)
        return m.DISABLE
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)
def dump(prop):
    json.dump({f: sorted(v) for f, v in hits.items()}, open('%s/%s.%d' % (os.environ['VERIF_COV'], prop, os.getpid()), 'w'))
