HASH="SHA-512 is an injective function without collisions with arbitrary data (compared through its inputs)."
for k in ("A02","A03","B01","B02","B03","B04","B05","B06"): NOTES[k]=HASH
GROUP="The curve is a generic group of prime order: scalars and points are polynomials over the generated keys and hashed numbers, equal exactly when the polynomials are (no accidental coincidences; confirmed by the solver); SHA-256 has no collisions; math/rand numbers of generated messages have one digit; points read from texts lie in the prime-order subgroup."
for k in ("J01","J02","J03","J04"): NOTES[k]=GROUP
NOTES["K01"]="The AES block cipher is a function without collisions over key and block (the CFB mode around it is the real code), SHA-256 has no collisions, and the system's random bytes never repeat."
NOTES["K02"]="RSA key generation, OAEP and the PKCS#1 encodings of the standard library are opaque: a ciphertext is read with its key and label only, an encoding is read as its key only."
