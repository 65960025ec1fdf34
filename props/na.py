"""properties that are stated but not claimed, with the reason"""


def P(id, title, statement, over, text, why, files, mech, where, observe):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=mech, where=where)], observe_at=observe))


PROPS = [
    P('N01', 'Files read from a repository at a ref match what git stores',
      'The content and metadata a repository path reports at a given commit are those git records for that commit.',
      ['inputs', 'histories'], 'all repositories and commits',
      'tests read one fixed commit of this repository', ['augpathlib/repo.py'], 'repository objects',
      'augpathlib/repo.py:RepoPath.show', ['RepoPath.show', 'RepoPath.latest_commit']),
    P('N02', 'Remote shell sessions pair every answer with its command',
      'A long-lived remote shell session returns to each command exactly the output of that command, whatever was '
      'printed before.', ['schedules', 'fault_sequences'], 'all outputs and interleavings of the session',
      'tests need a live host', ['augpathlib/remotes.py'], 'ssh session', 'augpathlib/remotes.py:SshHelper._ssh',
      ['SshRemote._ssh']),
]
REASONS = {
    'N01': 'the answer is computed by the git executable through GitPython pipes; neither is Python code of this '
           'repository and neither can be encoded symbolically',
    'N02': 'the session is a pexpect/ssh child process; its protocol runs in C and in a remote shell outside the '
           'encodable code, and no ssh server is available',
}
