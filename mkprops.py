# Generates properties.jsonl (kept so the list stays reviewable as text).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':qtext},why_tests_cant=why,anchors=a))
X='soapfish/xsd.py'
p('C01','Integer types accept exactly their value space',
 "Each built-in XSD integer type (integer, long, int, short, byte, the unsigned types, and the non-negative, non-positive, positive and negative types) accepts an integer, given as a number or as its decimal text, exactly when it lies inside the value range XSD assigns to that type and inside every narrower bound the user declares; any other integer is refused with an error. Text that denotes no integer, and values that are neither integers nor text, are refused. Rendering an accepted integer and parsing the rendered text yields the same integer.",
 ['inputs','configurations'],'all integers and all texts, for each of the integer types and every combination of user bounds',
 'The range is unbounded and the user bounds are free; the tests sample a few values near one or two limits per type and never combine user bounds with a derived type.',
 [X],[('range table per type','xsd.Integer.overrides and subclasses'),('facet combination','xsd.Integer.__init__'),('bound comparison','xsd.Decimal._check_restrictions'),('text conversion','xsd.Integer.accept / xsd.Decimal.xmlvalue / pythonvalue')],
 observe=['<IntegerType>(...).accept(v)','.xmlvalue(v)','.pythonvalue(text)'])
p('C02','Every declared numeric facet is enforced',
 "A decimal, double, float or integer type that declares facets (inclusive or exclusive bounds, enumeration, pattern, total digits, fraction digits) accepts a number only if it satisfies all declared facets, and accepts every finite number when no facet is declared; a facet declared with the value zero counts as declared. Total digits counts the digits of the number and nothing else, a pattern must match the whole text of the number, and an accepted number is returned numerically unchanged.",
 ['inputs','configurations'],'all integers, floats and exact decimals, and all combinations of facets',
 'Facets are independent knobs over an unbounded value domain; tests try single facets on single values and never negative numbers with digit counts, exact decimals with bounds, or alternations in patterns.',
 [X],[('facet checks','xsd.Decimal._check_restrictions'),('conversion before the checks','xsd.Decimal.accept, xsd.Integer.accept')],
 observe=['Decimal(...).accept(v)'])
p('C03','String facets are enforced on the normalised text',
 "A string type with declared facets (exact, minimum and maximum length, pattern, enumeration, whitespace mode) accepts a text exactly when the text, after the declared whitespace normalisation, satisfies all of them, and returns that normalised text; a facet declared with the value zero counts as declared and a pattern must match the whole text. 'preserve' (or nothing declared) leaves text alone, 'replace' turns each tab, line feed and carriage return into a space, and 'collapse' additionally reduces runs of spaces to one and strips both ends; anything that is not text is refused.",
 ['inputs','configurations'],'all Unicode texts and all combinations of string facets',
 'Texts and facet combinations are unbounded; the tests use a handful of words, no alternation patterns, no zero lengths and no non-XML whitespace.',
 [X],[('facet checks','xsd.String.accept'),('normalisation','xsd.String._clean_whitespace')],
 observe=['String(...).accept(text)'])
p('C04','Boolean and occurrence-limit texts map one to one',
 "A boolean field accepts exactly the two truth values (numbers equal to them are normalised to them) and nothing else; it renders them as 'true' and 'false', and parses exactly the four XSD lexical forms 'true', '1', 'false', '0' to the right truth value, refusing other text. An occurrence limit renders a number as its decimal text and 'no limit' as 'unbounded', and parsing either text gives back the same limit.",
 ['inputs'],'all texts, all numbers, all occurrence limits',
 'Tests check only the two canonical texts and one or two occurrence limits.',
 [X],[('boolean mapping','xsd.Boolean'),('limit mapping','xsd.MaxOccurs')],observe=['Boolean().accept/xmlvalue/pythonvalue','MaxOccurs().accept/xmlvalue/pythonvalue'])
p('C05','Dates and times survive rendering and parsing',
 "For every date (with or without a whole-minute UTC offset), every time and every date-time (with whole seconds; with a whole-minute offset), rendering gives text in the XSD lexical form — four-digit zero-padded year, two-digit fields, offset as sign, two-digit hours, colon, two-digit minutes — and parsing that text gives back the same fields and the same offset. Text that does not denote a real calendar date (with, possibly, a real offset) is refused with a value error by the date type, never misread. Any object with the fields of a date and none of a time is accepted as that date, with its offset.",
 ['inputs'],'all dates of years 1-9999, all times of day, all offsets from -23:59 to +23:59',
 'Tests use half a dozen dates after year 1900 and offsets of full or half hours; negative and odd-minute offsets, early years and malformed tails are never combined.',
 [X,'soapfish/utils.py','soapfish/xsd_types.py'],[('offset text','utils.timezone_offset_to_string'),('date rendering and parsing','xsd.Date'),('date-time','xsd.DateTime'),('time','xsd.Time'),('date value','xsd_types.XSDDate')],
 observe=['Date/DateTime/Time .xmlvalue and .pythonvalue'])
p('C06','Assignment stores only values the field type accepts',
 "Setting a field of a model object, by constructor keyword or by attribute assignment, stores exactly the value its declared type accepts (after that type's own normalisation), and the nil marker only where the field is declared nillable. A refused value, or a name that is not a declared field, raises an error and leaves every field of the object as it was.",
 ['inputs','programs','histories'],'all model classes, all fields, all values, any order of assignments',
 'User model classes and assignment sequences are unbounded; tests assign a few wrong values to single fields and never look at the object after a refusal.',
 [X],[('guarded assignment','xsd.ComplexType.__setattr__'),('constructor','xsd.ComplexType.__init__'),('field acceptance','xsd.Element.accept'),('type acceptance of nested objects','xsd.ComplexType.accept')],
 state=[('field slots','one attribute per declared field of the instance','xsd.ComplexType instances')],observe=['attribute values after assignment'])
p('C07','Repeated fields respect their occurrence limits',
 "Appending to a repeated field stores exactly the accepted item at the end, or raises and leaves the list unchanged when the item type refuses the item, when a nil marker is appended to a list that is not nillable, or when the list already holds its declared maximum. Rendering a repeated field produces exactly one element per item in list order, and raises when the number of items is below the declared minimum or above the declared maximum; a declared maximum of zero counts as declared.",
 ['inputs','histories','configurations'],'all list lengths, all limits, all items, any sequence of appends',
 'Limits and lengths are unbounded; tests use one or two lists with limits of at most three.',
 [X],[('guarded append','xsd.TypedList.append'),('limit check on rendering','xsd.ListElement.render')],
 state=[('list contents','accepted items in order','xsd.TypedList')],observe=['TypedList contents','rendered children'])
p('C08','Rendering writes exactly the object, no more and no less',
 "Rendering a model object writes, for each declared field, in declaration order: an attribute or element under the field's XML name (its tag name if declared, its Python name otherwise), in the field's own namespace or else the schema's if qualified form is in force and without namespace otherwise, carrying the text or children of the field's value; where a form is asked for at all, the one in force is that of the schema that declares the object's class, wherever in a document the object is; a nil value becomes an empty element marked nil; a repeated field becomes one element per item. A missing (None) element writes nothing, a missing optional attribute writes nothing, a missing required attribute is an error, and group fields are written directly into the parent; rendering never alters the object.",
 ['inputs','programs','configurations'],'all model classes and objects',
 'Class shapes and values are unbounded; tests compare a few fixed documents.',
 [X],[('field rendering','xsd.Element.render, Attribute.render, ListElement.render, Ref.render, ClassNamedElement.render'),('object rendering','xsd.ComplexType.render'),('document','xsd.ComplexType.xml')],
 observe=['obj.xml(...)','field.render(parent, ...)'])
p('C09','Parsing inverts rendering',
 "Parsing the XML rendered from a model object with the same class yields an object with equal field values: every attribute, element, repeated element, nested object, group field and nil element comes back where it was, and a missing optional field comes back as its default or as missing. Parsing takes each child into the field whose name it bears whatever the order of differently named children and whatever comments, processing instructions or unknown elements surround them, keeping the order of repeated ones; nil is recognised exactly when the nil marker is 'true' or '1'. Infinite floating-point numbers and NaN have the texts INF, -INF and NaN.",
 ['inputs','programs'],'all model classes, objects, and documents conforming to them (non-empty texts)',
 'The classes and documents are unbounded; tests parse a few fixed documents and seldom render and parse back.',
 [X],[('object parsing','xsd.ComplexType.parse_xmlelement, _find_subelement, _is_matching_element'),('field parsing','xsd.Element.parse, Attribute.parse, ListElement.parse')],
 observe=['Cls.parsexml(obj.xml(...))'])
p('C10','Model objects share no state',
 "A newly created model object holds for every field either the declared default, nothing, or a fresh empty list or fresh group value of its own, and changing one object — assigning fields, appending to its lists, filling its groups — never changes another object, the model class, or what later created objects start with.",
 ['histories','programs'],'all model classes and all interleavings of operations on any number of objects',
 'Aliasing shows only through a second object used after the first; tests use one object at a time.',
 [X],[('initial values','xsd.ComplexType.__new__, Element.empty_value, ListElement.empty_value, Ref.empty_value')],
 state=[('initial field values','what a fresh instance holds','xsd.ComplexType.__new__')],observe=['fields of a second instance'])
p('C11','Each request reaches the operation it names',
 "A SOAP request that carries a SOAP action is routed to the first operation declared with exactly that action, and refused with a client fault if there is none, whatever its body; a request without an action goes to the first operation whose input element is named like the body's root element, else to the operation of the substitution-group head that the service's schemas declare for that element, else it is refused with a client fault. The handler of no other operation is ever called.",
 ['inputs','configurations'],'all lists of operations, actions, root elements and schema elements',
 'Tests use services with one to three operations and do not vary order, duplicates, or schema elements that are no operation input.',
 ['soapfish/soap_dispatch.py'],[('routing','soap_dispatch.SOAPDispatcher._find_handler_for_request'),('call','soap_dispatch.call_method')],observe=['which handler function ran','fault returned'])
p('C12','Bad requests always get a client fault, handlers only see valid ones',
 "Whatever bytes are posted, the dispatcher returns a response and lets no exception escape, provided the handler and user middlewares raise none other than SOAP errors: content that is not well-formed, has no body or an empty one, or whose body or (in strict mode) header parts do not validate against the service's schemas yields a client fault and the handler is not called. A valid request calls the handler exactly once, with the parsed body and, if declared, the parsed header; a service that uses addressing and declares no headers of its own declares those of addressing.",
 ['inputs','configurations'],'all byte strings posted, all services',
 'The input is an arbitrary byte string; tests try about ten malformed requests.',
 ['soapfish/soap_dispatch.py','soapfish/soap11.py','soapfish/soap12.py'],[('request preparation','soap_dispatch.SOAPDispatcher._prepare_request, _parse_soap_content, _validate_input, _validate_header, _validate_body'),('fault conversion','soap_dispatch.SOAPDispatcher.handle_soap_request'),('envelope model','soap11.Envelope / soap12.Envelope')],observe=['dispatch(request)'])
p('C13','Faults carry code, message and actor unchanged',
 "A SOAP error raised or returned while a request is handled becomes a fault response with HTTP status 500 whose code and message are exactly those of the error, in the structure of the service's SOAP version, with any response header kept. A fault message built with an actor keeps it, and a client receiving a fault raises a SOAP error with the code, message and actor the fault holds.",
 ['inputs'],'all codes, messages, actors, both SOAP versions',
 'Texts are unbounded; tests use one or two fixed faults, mostly for SOAP 1.1.',
 ['soapfish/soap_dispatch.py','soapfish/soap11.py','soapfish/soap12.py','soapfish/soap.py','soapfish/core.py'],[('fault response','soap_dispatch.SOAPDispatcher.handle_soap_request'),('fault messages','soap11/soap12 Envelope.error_response, parse_fault_message'),('client side','soap.Stub._handle_response')],observe=['response content and status','exception at the client'])
p('C14','Middlewares and hooks wrap every request in order, once',
 "With any list of middlewares, each request passes through them in list order, each receiving a callable for the rest of the chain whose last link runs the operation, and responses return in reverse order; a middleware that does not call on keeps later ones and the handler from running. Hooks run exactly once per matching request, before and after SOAP, WSDL and XSD handling respectively, their return value replaces the request or response, a hook of another kind is never run, and a hook returning the wrong kind of object, or an unknown hook name, is an error.",
 ['inputs','configurations','histories'],'all middleware lists of any length and all hook tables',
 'List length is unbounded; tests use at most two middlewares and one hook.',
 ['soapfish/soap_dispatch.py'],[('chain construction','soap_dispatch.SOAPDispatcher.middleware'),('hooks','soap_dispatch.SOAPDispatcher._call_hook, handle_soap_request, handle_wsdl_request, handle_xsd_request, __init__')],observe=['order of middleware calls','hook calls'])
p('C15','HTTP front ends pass requests and responses on faithfully',
 "Through the WSGI, Django and Flask front ends alike, the dispatcher sees the request's environment and exactly the posted bytes, and the client receives exactly the dispatcher's status code, headers and content, as bytes. GET with 'wsdl' serves the service description (with the host of the request and the scheme the client used, as a proxy reports it), GET with 'xsd=NAME' the named schema or status 404, POST is handled as SOAP, and every other request gets status 400.",
 ['inputs'],'all environments, methods, query strings, contents and dispatcher responses',
 'Tests cover a few requests through each front end and seldom look at status codes other than 200.',
 ['soapfish/soap_dispatch.py','soapfish/core.py','soapfish/django_.py','soapfish/flask_.py'],[('dispatch by method and query','soap_dispatch.SOAPDispatcher.dispatch, handle_wsdl_request, handle_xsd_request'),('WSGI','soap_dispatch.WsgiSoapApplication.__call__'),('Django','django_.django_dispatcher'),('Flask','flask_.flask_dispatcher'),('response object','core.SOAPResponse')],observe=['start_response arguments and body','HttpResponse','Flask Response'])
p('C16','Generated XSD says what the model says',
 "The XSD generated for a schema declares exactly its simple types, complex types and elements, each complex type with its attributes and elements in declaration order, in the declared kind of group, under their XML names, with their types, occurrence limits, nillability and attribute use, and the restrictions of its elements and of named simple types with every declared facet including zero-valued ones. Documents rendered from model objects that respect the declared occurrence rules and types validate against it.",
 ['programs','configurations','inputs'],'all schemas, model classes, facets and objects',
 'Schemas are programs; tests generate from a few fixed ones and mostly check that generation does not raise.',
 ['soapfish/py2xsd.py','soapfish/xsdspec.py'],[('elements','py2xsd.create_xsd_element'),('complex types','py2xsd.xsd_complexType'),('simple types','py2xsd.xsd_simpleType'),('attributes','py2xsd.xsd_attribute'),('schema','py2xsd.generate_xsdspec, generate_elements, build_imports, build_includes')],observe=['generate_xsd(schema)'])
p('C17','Generated WSDL describes every operation consistently',
 "The WSDL generated for a service contains, for each operation in order, a port-type operation and a binding operation of that name with its SOAP action and style, an input and an output message, and one part per message naming the operation's input or output element or type; it contains one port with the service's location and all schemas. Every reference in it (port to binding, binding to port type, operation to message) resolves to a definition in it, and the SOAP namespace is that of the service's version.",
 ['programs','configurations'],'all services: any number of operations, names, actions, versions',
 'The number of operations is unbounded; tests look at one or two operations.',
 ['soapfish/py2wsdl.py','soapfish/wsdl11.py','soapfish/wsdl12.py'],[('builders','py2wsdl.build_service, build_bindings, build_portTypes, build_messages, build_types, generate_wsdl')],observe=['generate_wsdl(service)'])
p('C18','Every imported schema is served once and resolvable',
 "Walking the import and include graph of a service's schemas visits every reachable location exactly once, whatever the graph (cycles and diamonds included), and terminates. Every import and include location in the description and schema documents the dispatcher serves leads back to a schema document it serves for that location.",
 ['configurations','programs'],'all finite schema graphs',
 'Graphs are unbounded; tests walk one or two small trees.',
 ['soapfish/utils.py','soapfish/soap_dispatch.py','soapfish/xsd.py'],[('walk','utils.walk_schema_tree'),('served documents','soap_dispatch.SOAPDispatcher.__init__, _rewrite_locations, handle_xsd_request')],observe=['dispatcher.xsds','served documents'])
p('C19','Schemas are ordered after what they import',
 "Reordering a list of schemas for code generation returns exactly the given schemas, each once. Whenever imports among them have no cycle, every schema comes after all schemas of the list that it imports.",
 ['inputs','configurations'],'all lists of schemas and import relations',
 'Import graphs are unbounded; tests reorder one list.',
 ['soapfish/wsdl2py.py'],[('ordering','wsdl2py.reorder_schemas')],observe=['returned list'])
p('C20','The client stub sends what was asked and returns what came back',
 "A client call posts once, to the configured location, an envelope whose body is the given parameter under the operation's input element name and whose header is the given one, with the operation's SOAP action in the headers of the service's SOAP version, and credentials exactly if a user name is set. It returns the body parsed as the operation's output, with the header parsed if the operation declares one, and raises a SOAP error if and only if the answer is a fault.",
 ['inputs','configurations'],'all operations, parameters, headers, locations and answers',
 'Tests never run the call against an answer; they check locations only.',
 ['soapfish/soap.py'],[('call','soap.Stub.call'),('response','soap.Stub._handle_response'),('location','soap.Stub.__init__'),('operation lookup','soap.Service.get_method, find_element_by_name')],observe=['requests.post arguments','returned response'])
p('C21','SOAP action headers are read back as written',
 "For both SOAP versions, the action a server determines from the HTTP headers a client builds for an action is that action, as the headers arrive in a WSGI or CGI environment (for SOAP 1.1 also under their plain names and as 'ACTION'); absent or empty action headers, and those built for no action, determine none. A SOAP version is determined from a namespace exactly when it is that version's envelope or binding namespace.",
 ['inputs'],'all action texts without quotes, backslashes or control characters; all namespaces',
 'Action texts are unbounded; tests use one or two.',
 ['soapfish/soap11.py','soapfish/soap12.py','soapfish/soap.py'],[('SOAP 1.1','soap11.determine_soap_action, build_http_request_headers'),('SOAP 1.2','soap12.determine_soap_action, build_http_request_headers'),('version','soap.SOAPVersion.get_version')],observe=['determine_soap_action(request)'])
p('C22','Requests leave no trace in the dispatcher',
 "Handling a request — valid, invalid or failing, GET or POST — changes nothing in the dispatcher, the service, its operations, its schemas or the model classes that a later request could notice: the answer to a request depends on that request alone, not on which requests came before it.",
 ['histories','inputs'],'all sequences of requests',
 'History dependence needs particular sequences; each test builds its own dispatcher and sends one or two requests.',
 ['soapfish/soap_dispatch.py','soapfish/soap11.py','soapfish/xsd.py','soapfish/core.py'],[('per-request state','core.SOAPRequest, core.SOAPResponse'),('dispatch','soap_dispatch.SOAPDispatcher.dispatch and what it calls')],state=[('dispatcher','service, middlewares, hooks, wsdl, xsds, validator','soap_dispatch.SOAPDispatcher')],observe=['answers to repeated requests','attributes of dispatcher and service'])
p('C23','Addressing headers answer the request they belong to',
 "Filling an addressing header for a reply sets its action to the request's action followed by 'Response', relates it to the request's message id, addresses it to the anonymous receiver and gives it a new message id; without a request header only receiver and message id are set. The request header and all other fields are left as they were, and no two filled headers share a message id. A header is written as the elements of the addressing namespace that bear the names of its fields, and read back from them.",
 ['inputs','histories'],'all request headers and any number of fills',
 'Tests do not cover filling at all.',
 ['soapfish/wsa.py'],[('fill','wsa.fill_header')],observe=['fields of both headers'])
p('C24','Exception middlewares convert or pass on every exception',
 "The fault middleware returns what the rest of the chain returns, returns a raised SOAP error unchanged, and turns any other exception (exits and interrupts aside, which pass) into a server-code SOAP error of the service's version whose message names the exception's kind and text (or holds the traceback, if so configured). The logging middleware returns what the rest of the chain returns and re-raises the very exception raised, logging it exactly once exactly when it is of a configured kind.",
 ['inputs','fault_sequences'],'all requests, results and exceptions',
 'The exceptions a handler can raise are unbounded; tests raise one or two.',
 ['soapfish/middlewares.py'],[('conversion','middlewares.ExceptionToSoapFault.__call__'),('logging','middlewares.ExceptionLogger.__call__')],observe=['returned value, raised exception, log records'])
p('C25','WSDL references are resolved by exact local name',
 "Looking up a WSDL item by a possibly prefixed name returns the first item whose name equals the part after the last colon, and raises an error naming it when there is none. The message and header parts found for an operation's input or output are those its port type and binding refer to, and none when it has no such direction; schemas are selected for a set of element names only if they define all of them.",
 ['inputs','configurations'],'all names, lists and definitions',
 'Lists and names are unbounded; tests reach these lookups only through code generation for a few documents.',
 ['soapfish/wsdl.py','soapfish/utils.py','soapfish/xsd.py'],[('by name','wsdl.get_by_name'),('message','wsdl.get_message_object'),('headers','wsdl.get_message_header'),('local name','utils.remove_namespace'),('schema selection','utils.schema_select'),('element lookup','xsd.Schema.get_element_by_name')],observe=['returned items'])
p('C26','Generated Python code reproduces the schema it came from',
 "Python code generated from an XSD or WSDL document of the supported subset imports without error, whatever the names and texts in the document, and defines model classes, schemas, services and stubs from which the same content can be generated again: the same simple types with their facets, complex types, elements and attributes with their types, limits, nillability and use, operations with their actions, styles, parts, headers and locations. Every document that is imported or included is taken in exactly once, wherever it is and wherever it is referred to. Instance documents of the schema are read and written unchanged by the generated classes, and a generated client and a dispatcher of the generated service hear what the other says, headers included.",
 ['programs','inputs'],'all XSD and WSDL documents of the supported subset: named and local simple types that are restrictions of text and number types or of one another, complex types with one sequence, choice or all of elements and attributes (nested to any depth), extensions and restrictions of sequences, attribute groups, imports and includes without cycles; WSDL operations with an input and an output of one part each. Not in it: element and group references, lists, unions, simple content, limits of whole sequences or choices, names that are equal after their translation to Python, overloaded and one-way operations',
 'Documents are unbounded; tests generate from a fixed set and only check that the code imports.',
 ['soapfish/xsd2py.py','soapfish/wsdl2py.py','soapfish/utils.py','soapfish/wsdl.py','soapfish/templates'],[('templates','soapfish/templates/*.jinja2'),('names and types in the code','the filters of utils.get_rendering_environment'),('generator','xsd2py.schema_to_py, generate_code_from_xsd, _reorder_complexTypes'),('documents apart','xsd2py.resolve_import, rewrite_paths, utils.resolve_location, wsdl2py.merge_imports, reorder_schemas'),('WSDL','wsdl2py.generate_code_from_wsdl')],observe=['exec of generated code','XSD and WSDL generated from it again','instance documents read and written by the generated classes'])
p('C27','A schema given with a document is enforced',
 "An object is written with a compiled schema exactly if the document it renders is valid under it, and then as it is written without one; otherwise writing fails. A document is read with a schema (a model schema, or one compiled by lxml) exactly if it is valid under that schema, and then gives what it gives without one; otherwise reading fails.",
 ['inputs','configurations'],'all model objects, all documents, all schemas',
 'Documents are unbounded; tests give a schema with one or two documents.',
 ['soapfish/xsd.py'],[('writing','xsd.ComplexType.xml'),('reading','xsd.ComplexType.parsexml')],observe=['obj.xml(..., schema=)','Cls.parsexml(text, schema)'])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+'\n')
