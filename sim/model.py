"""Reference models: what networks and counts of a set of record views (mini.views) are by definition."""
from collections import Counter


class G:
    """Expected graph: {node: attrs}, {edge: attrs}; an edge is (u, v) or (u, v, key), ends in sorted order if undirected."""

    def __init__(self, directed=False):
        self.directed, self.nodes, self.edges = directed, {}, {}

    def node(self, n, n_count=0):
        d = self.nodes.setdefault(n, Counter())
        if n_count:
            d['count'] += n_count

    def ekey(self, u, v, key=None):
        if not self.directed and str(v) < str(u):
            u, v = v, u
        return (u, v) if key is None else (u, v, key)

    def edge(self, u, v, weight, key=None, **attrs):
        self.node(u)
        self.node(v)
        d = self.edges.setdefault(self.ekey(u, v, key), {})
        if weight:
            d['weight'] = d.get('weight', 0) + 1
        for k, x in attrs.items():
            d.setdefault(k, x)


def compare(got, want, attrs=('count', 'weight'), node_attrs=(), edge_attrs=()):
    """First difference between a networkx graph and a model graph, as text, or None."""
    if got.is_directed() != want.directed:
        return 'directed is {}'.format(got.is_directed())
    gn = dict(got.nodes(data=True))
    for n in want.nodes:
        if n not in gn:
            return 'node {!r} is missing'.format(n)
    for n in gn:
        if n not in want.nodes:
            return 'node {!r} should not be there'.format(n)
    for n, d in gn.items():
        w = want.nodes[n]
        for a in set(('count',)) | set(node_attrs):
            if d.get(a) != (w.get(a) if a in w else None):
                return 'node {!r} has {} {!r} instead of {!r}'.format(n, a, d.get(a), w.get(a) if a in w else None)
    ge = {}
    for e in (got.edges(keys=True, data=True) if got.is_multigraph() else got.edges(data=True)):
        k = want.ekey(*e[:2]) if not got.is_multigraph() else want.ekey(e[0], e[1], str(e[2]))
        if k in ge:
            return 'edge {!r} is there twice'.format(k)
        ge[k] = e[-1]
    for e in want.edges:
        if e not in ge:
            return 'edge {!r} is missing'.format(e)
    for e, d in ge.items():
        if e not in want.edges:
            return 'edge {!r} should not be there'.format(e)
        for a in set(('weight',)) | set(edge_attrs):
            if d.get(a) != want.edges[e].get(a):
                return 'edge {!r} has {} {!r} instead of {!r}'.format(e, a, d.get(a), want.edges[e].get(a))
    return None


def aslist(v):
    return [] if v is None else list(v) if isinstance(v, list) else [v]


def text(v):
    return v['original'] if isinstance(v, dict) else str(v)


def coauthor(vs, tag, weighted, count):
    g = G()
    for v in vs:
        au = aslist(v['vals'].get(tag))
        for i, a in enumerate(au):
            g.node(a, 1 if count else 0)
            for b in au[i + 1:]:
                g.edge(a, b, weighted)
    return g


def cite_key(c, node_type):
    return c['id'] if node_type == 'full' else c[node_type]


def keep(cites, node_type, drop_anon, keywords, core):
    out = []
    for c in cites:
        if not cite_key(c, node_type):
            continue
        if drop_anon and c['anon']:
            continue
        if core is not None and c['id'] not in core:
            continue
        if keywords and any(k.upper() in c['original'].upper() for k in keywords):
            continue
        out.append(c)
    return out


def cocitation(vs, node_type, weighted, count, drop_anon, keywords, core_only):
    g = G()
    core = {v['self']['id'] for v in vs} if core_only else None
    for v in vs:
        cs = [cite_key(c, node_type) for c in keep(v['cites'], node_type, drop_anon, keywords, core)]
        for i, a in enumerate(cs):
            g.node(a, 1 if count else 0)
            for b in cs[i + 1:]:
                g.edge(a, b, weighted)
    return g


def citation(vs, node_type, weighted, count, drop_anon, keywords, core_only, directed, record_to_cite=True):
    g = G(directed)
    core = {v['self']['id'] for v in vs} if core_only else None
    for v in vs:
        if not keep([v['self']], node_type, drop_anon, keywords, core) or not v['cites']:
            continue
        h = cite_key(v['self'], node_type)
        g.node(h, 1 if count else 0)
        for c in keep(v['cites'], node_type, drop_anon, keywords, core):
            k = cite_key(c, node_type)
            g.node(k, 1 if count else 0)
            a = {}
            if node_type in ('full', 'original') and weighted:
                y, z = v['self']['year'], c['year']
                a['yearDiff'] = None if y is None or z is None else abs(y - z)
            g.edge(*((h, k) if record_to_cite else (k, h)), weighted, **a)
    return g


def coupling(vs, weighted):
    c = citation(vs, 'full', False, False, False, None, False, True)
    core = {v['self']['id'] for v in vs}
    g = G()
    for n in c.nodes:
        if n in core:
            g.node(n)
    into = {}
    for u, v in c.edges:
        into.setdefault(v, set()).add(u)
    for v in into:
        us = sorted(into[v])
        for i, a in enumerate(us):
            for b in us[i + 1:]:
                g.edge(a, b, weighted)
    return g


def multilevel(vs, tags, count, weighted, stem=str, edge_attr=None):
    g = G()
    for v in vs:
        xs = [stem(text(x)) for t in tags for x in aslist(v['vals'].get(t))]
        for i, a in enumerate(xs):
            g.node(a, 1 if count else 0)
            for b in xs[i + 1:]:
                if edge_attr is None:
                    g.edge(a, b, weighted)
                else:
                    for k in aslist(v['vals'].get(edge_attr)):
                        g.edge(a, b, weighted, key=text(k))
    return g


def multimode(vs, tags, count, weighted, directed=False, stem=str, edge_attr=None, stem2=None):
    g = G(directed)
    for v in vs:
        lists = [[(stem if i == 0 or stem2 is None else stem2)(text(x)) for x in aslist(v['vals'].get(t))] for i, t in enumerate(tags)]
        for i, xs in enumerate(lists):
            for a in xs:
                g.node(a, 1 if count else 0)
                for ys in lists[i + 1:]:
                    for b in ys:
                        if edge_attr is None:
                            g.edge(a, b, weighted)
                        else:
                            for k in aslist(v['vals'].get(edge_attr)):
                                g.edge(a, b, weighted, key=text(k))
    return g


def diffusion(src, dst, stag, ttag, weighted, label=None):
    """Edges from each value of a cited record to each value of a record that cites it."""
    g = G(True)
    credit = {}
    for v in src:
        xs = aslist(v['vals'].get(stag))
        if xs:
            credit[v['self']['id']] = xs
            for x in xs:
                g.node(x)
                g.nodes[x]['source'] = True
    for v in dst:
        ys = aslist(v['vals'].get(ttag))
        if label is not None and v['vals'].get(label) is None:
            continue
        for y in ys:
            g.node(y)
            g.nodes[y]['target'] = True
            for c in v['cites']:
                for x in credit.get(c['id'], ()):
                    if label is None:
                        g.edge(x, y, weighted)
                    else:
                        for k in aslist(v['vals'].get(label)):
                            g.edge(x, y, weighted, key=text(k))
    for n in g.nodes:
        for a in ('source', 'target'):
            g.nodes[n][a] = bool(g.nodes[n].get(a))
    return g
