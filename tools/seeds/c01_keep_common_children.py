ID='c01_keep_common_children'
PROP='C01'
EDITS=[('vanillaplusjs/build/graph.py', '        for child in node.children:\n            child.parents.remove(node)\n        node.children.clear()\n        for child in children:\n            child_node = self.nodes[child]\n            child_node.parents.append(node)\n            node.children.append(child_node)\n\n    def __repr__', '        old_children = set(child.path for child in node.children)\n        for child in node.children:\n            if child.path not in children:\n                child.parents.remove(node)\n        node.children.clear()\n        for child in children:\n            child_node = self.nodes[child]\n            if child not in old_children:\n                child_node.parents.append(node)\n            node.children.append(child_node)\n\n    def __repr__')]
DEMO='\nfrom vanillaplusjs.build.graph import FileDependencyGraph\ng = FileDependencyGraph()\nfor c in "ab":\n    g.add_file(c, 1, 1.0, 1)\ng.set_children("a", ["b", "b"])\nassert g.get_parents("b") == ["a", "a"]\ng.set_children("a", ["b"])\nassert g.get_parents("b") == ["a"], g.get_parents("b")\ng.remove_file("a", clear_children=True)\nassert g.get_parents("b") == []\n'
NEEDS='a file that lists the same child twice and later lists it once (or the other way round)'
BREAKS='a parent edge is left behind after the child edge is gone'
