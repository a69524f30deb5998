"""Stand-in for PyGithub: records the check runs that would be created."""
runs = []
class GithubException(Exception):
    pass
class _O:
    def __init__(self, **k): self.__dict__.update(k)
class Github:
    def __init__(self, *a, **k): pass
    def get_repo(self, name): return self
    def get_commit(self, sha): return _O(sha=sha)
    def create_check_run(self, *a, **k): runs.append((a, k))
