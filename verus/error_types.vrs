//@item src/error.rs enum Error
//@rewrite # [ cfg ( feature = "serde" ) ] => /* cfg */
//@item src/de.rs enum DeserializeError
//@item src/ser.rs enum SerializeError
//@item src/ser.rs enum KeyType
//@item src/error.rs type Result
