# a catalogue server and a store server on free loopback ports, both below $W; sets CLIENT (configuration file of the client)
# and offers local access to the same catalogue through $W/config.yaml only where a demonstration wants it
set -- $(python3 -c "
import socket
a=[socket.socket() for _ in range(2)]
[x.bind(('127.0.0.1',0)) for x in a]
print(*[x.getsockname()[1] for x in a])")
CPORT=$1 SPORT=$2
mkdir -p $W/cat $W/sto
cat > $W/catalogue.yaml <<Z
---
type: catalogue
serverPort: $CPORT
serverThreaded: true
stores:
- default: "localhost:$SPORT"
schema: $W/schema
spaces:
- handler: Default
  roots:
    - path: $W/cat
Z
cat > $W/store.yaml <<Z
---
type: store
serverPort: $SPORT
serverThreaded: true
spaces:
- handler: Default
  roots:
  - path: $W/sto
Z
cat > $W/client.yaml <<Z
---
type: remote
store: remote
engine: remote
host: localhost
port: $CPORT
Z
CLIENT=$W/client.yaml
SERVERLIFE=${SERVERLIFE:-200}
server() {  # server config log [preload]
    FDB5_CONFIG_FILE=$1 FDB_WIPE_SECRET=123 LD_PRELOAD=$3 timeout -k 1 $SERVERLIFE $B/bin/fdb-server > $2 2>&1 &
}
listening() {  # listening port
    for _ in $(seq 100); do
        if (exec 3<>/dev/tcp/127.0.0.1/$1) 2>/dev/null; then return 0; fi
        sleep 0.1
    done
    echo "server does not start"; exit 0
}
servers() {
    server $W/catalogue.yaml $W/cat.log "$CATSHIM"
    server $W/store.yaml $W/sto.log "$STOSHIM"
    listening $CPORT
    listening $SPORT
}
