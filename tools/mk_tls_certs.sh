# makes the certificates of sut/tls, in the current directory
set -e
mkca() { openssl ecparam -genkey -name prime256v1 -noout -out $1.key; rm -rf $1.d; mkdir $1.d; touch $1.d/index.txt; echo 01 > $1.d/serial
cat > $1.cnf <<C
[ca]
default_ca=d
[d]
dir=$1.d
database=$1.d/index.txt
new_certs_dir=$1.d
serial=$1.d/serial
default_md=sha256
policy=p
unique_subject=no
copy_extensions=none
[p]
commonName=supplied
[req]
distinguished_name=dn
[dn]
C
cat > ca.ext <<C
basicConstraints=critical,CA:TRUE
keyUsage=critical,keyCertSign,cRLSign
subjectKeyIdentifier=hash
C
openssl req -new -config $1.cnf -key $1.key -subj "/CN=$1" -out $1.csr
openssl ca -batch -config $1.cnf -selfsign -keyfile $1.key -in $1.csr -out $1.pem -startdate 20100101000000Z -enddate 21200101000000Z -extfile ca.ext -notext; }
leaf() { # name ca cn san start end usage
openssl ecparam -genkey -name prime256v1 -noout -out $1.key
openssl req -new -config $2.cnf -key $1.key -subj "/CN=$3" -out $1.csr
echo "basicConstraints=CA:FALSE
keyUsage=critical,digitalSignature
extendedKeyUsage=$7
authorityKeyIdentifier=keyid" > l.ext
[ -n "$4" ] && echo "subjectAltName=$4" >> l.ext
openssl ca -batch -config $2.cnf -keyfile $2.key -cert $2.pem -in $1.csr -out $1.pem -startdate $5 -enddate $6 -extfile l.ext -notext; }
S=20100101000000Z; E=21190101000000Z
mkca site; mkca other; mkca clients
leaf good site device "IP:127.0.0.1,DNS:localhost" $S $E serverAuth
leaf name site device "IP:127.0.0.9,DNS:elsewhere.example" $S $E serverAuth
leaf expired site device "IP:127.0.0.1,DNS:localhost" $S 20150101000000Z serverAuth
leaf future site device "IP:127.0.0.1,DNS:localhost" 21100101000000Z $E serverAuth
leaf foreign other device "IP:127.0.0.1,DNS:localhost" $S $E serverAuth
leaf usage site device "IP:127.0.0.1,DNS:localhost" $S $E clientAuth
# leaf self other device "" $S $E serverAuth
leaf alice clients alice "" $S $E clientAuth
leaf mallory other mallory "" $S $E clientAuth
# self-signed
mkca ss
printf 'basicConstraints=CA:FALSE\nkeyUsage=critical,digitalSignature\nextendedKeyUsage=serverAuth\n' > l.ext
openssl ca -batch -config ss.cnf -selfsign -keyfile ss.key -in ss.csr -out ss.pem -startdate $S -enddate $E -extfile l.ext -notext
