"""Stand-in for the cloud API: records what would be started and stopped."""
instances = []   # (name, id, state, ip)
calls = []
fail_starts = 0
class _C:
    def describe_instances(self, **k):
        half = len(instances) // 2
        def d(i):
            o = {"InstanceId": i[1], "State": {"Name": i[2]}, "Tags": [{"Key": "owner", "Value": "veri-worker-x"}, {"Key": "Name", "Value": i[0]}]}
            if i[3]: o["PublicIpAddress"] = i[3]
            return o
        return {"Reservations": [{"Instances": [d(i) for i in instances[:half]]}, {"Instances": [d(i) for i in instances[half:]]}]}
    def start_instances(self, InstanceIds=(), **k):
        global fail_starts
        from botocore.exceptions import ClientError
        if fail_starts > 0:
            fail_starts -= 1
            calls.append(("failed start", list(InstanceIds)))
            raise ClientError("no capacity")
        calls.append(("start", list(InstanceIds)))
        return {}
    def stop_instances(self, InstanceIds=(), **k):
        calls.append(("stop", list(InstanceIds)))
        return {}
def client(*a, **k):
    return _C()
