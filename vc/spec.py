"""Library functions stated in Python, interpreted together with the code under verification."""


def element_children(children):
    return [c for c in children if isinstance(c.tag, str)]


def local_name(tag):
    return tag[1:].split('}', 1)[1] if tag[0] == '{' else tag


def namespace_of(tag):
    return tag[1:].split('}', 1)[0] if tag[0] == '{' else None


def first_child(children, tag):
    """element.find(tag) of lxml."""
    for child in children:
        if child.tag == tag:
            return child
    return None


def children_of_tag(children, tag):
    """element.findall(tag) of lxml."""
    return [child for child in children if child.tag == tag]


def text_of_child(child, default):
    """element.findtext(tag, default) of lxml, given what find returns."""
    if child is None:
        return default
    return child.text or ''
